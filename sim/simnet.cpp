#include "simnet.hpp"

#include "simrt.hpp"

#include <algorithm>
#include <cerrno>
#include <cstring>

namespace simnet {
namespace {
    struct World {
        Params p;
        Counters c;
        std::set<std::pair<int, int>> cuts;
        std::map<std::pair<int, int>, std::deque<std::function<void()>>> held;
        std::map<int, ListenerPtr> listeners;
        std::map<int, DgramPtr> dgrams;
        std::set<int> occupied;
        std::vector<std::weak_ptr<Stream>> streams;
        int nextEphemeral = 50000;
    };
    World* gW = nullptr;
    World& W()
    {
        if (gW == nullptr) {
            gW = new World;
        }
        return *gW;
    }
    std::pair<int, int> key(int a, int b) { return a < b ? std::make_pair(a, b) : std::make_pair(b, a); }
}  // namespace

Params& params() { return W().p; }
Counters& counters() { return W().c; }
void reset()
{
    gW = new World;  // the old world is leaked on purpose: fibers of an old run may still refer to it
}
bool isCut(int a, int b) { return W().cuts.count(key(a, b)) != 0; }
void cut(int a, int b) { W().cuts.insert(key(a, b)); }
void heal(int a, int b)
{
    W().cuts.erase(key(a, b));
    for (auto k : {std::make_pair(a, b), std::make_pair(b, a)}) {
        auto it = W().held.find(k);
        if (it != W().held.end()) {
            auto q = std::move(it->second);
            W().held.erase(it);
            // retransmission: in order, shortly after the heal
            uint64_t t = sim::nowNs();
            for (auto& f : q) {
                t += 1000;
                sim::at(t, std::move(f));
            }
        }
    }
}
void healAll()
{
    auto c = W().cuts;
    for (auto& k : c) {
        heal(k.first, k.second);
    }
}
void occupyPort(int port) { W().occupied.insert(port); }

uint64_t pickDelay()
{
    auto& p = W().p;
    uint64_t d = p.minDelayNs;
    if (p.jitterNs > 0) {
        d += sim::choose(sim::K_NET, 16) * (p.jitterNs / 16);
    }
    if (p.slowDen > 0 && sim::chooseWeighted(sim::K_FAULT, 2, 1, p.slowDen) != 0) {
        ++W().c.slowed;
        d += p.slowNs;
    }
    return d;
}

static void dispatch(int a, int b, std::function<void()> fn)
{
    if (sim::nodeDead(b)) {
        return;
    }
    if (isCut(a, b)) {
        ++W().c.partitionsHeld;
        W().held[{a, b}].push_back([a, b, fn = std::move(fn)]() mutable { dispatch(a, b, std::move(fn)); });
        return;
    }
    fn();
}

void send(int a, int b, uint64_t& lastDeliver, std::function<void()> fn)
{
    ++W().c.packets;
    uint64_t t = sim::nowNs() + pickDelay();
    if (t <= lastDeliver) {
        t = lastDeliver + 1;
    }
    lastDeliver = t;
    sim::at(t, [a, b, fn = std::move(fn)]() mutable {
        // anything already held on this link keeps its place in front
        if (!isCut(a, b) && W().held.count({a, b}) != 0) {
            W().held[{a, b}].push_back([a, b, fn = std::move(fn)]() mutable { dispatch(a, b, std::move(fn)); });
            return;
        }
        dispatch(a, b, std::move(fn));
    });
}

// ---- streams
void Stream::post(std::function<void()> fn)
{
    send(node, peerNode, lastDeliver_, std::move(fn));
}
void Stream::deliver(std::string data)
{
    {
        std::lock_guard<std::mutex> l(m_);
        if (st_ == State::CLOSED || st_ == State::RESET) {
            return;
        }
        in_ += data;
        cv_.notify_all();
    }
    if (auto n = notify) {
        n();
    }
}
void Stream::peerGone(State s)
{
    {
        std::lock_guard<std::mutex> l(m_);
        if (st_ == State::CLOSED || st_ == State::RESET) {
            return;
        }
        st_ = s;
        cv_.notify_all();
    }
    if (auto n = notify) {
        n();
    }
}
bool Stream::write(const char* data, size_t len)
{
    {
        std::lock_guard<std::mutex> l(m_);
        if (st_ == State::CLOSED || st_ == State::RESET) {
            return false;
        }
    }
    auto pr = peer;
    W().c.bytes += len;
    std::string s(data, len);
    auto& p = W().p;
    if (len > 1 && p.splitDen > 0 && sim::chooseWeighted(sim::K_FAULT, 2, 1, p.splitDen) != 0) {
        ++W().c.split;
        size_t at = 1 + sim::choose(sim::K_NET, std::min<size_t>(len - 1, 64));
        if (at >= len) {
            at = len - 1;
        }
        std::string tail = s.substr(at);
        s.resize(at);
        post([pr, s]() {
            if (auto q = pr.lock()) {
                q->deliver(s);
            }
        });
        post([pr, tail]() {
            if (auto q = pr.lock()) {
                q->deliver(tail);
            }
        });
        return true;
    }
    post([pr, s = std::move(s)]() {
        if (auto q = pr.lock()) {
            q->deliver(s);
        }
    });
    return true;
}
std::string Stream::takeAll()
{
    std::lock_guard<std::mutex> l(m_);
    return std::move(in_);
}
size_t Stream::available()
{
    std::lock_guard<std::mutex> l(m_);
    return in_.size();
}
Stream::State Stream::state()
{
    std::lock_guard<std::mutex> l(m_);
    return st_;
}
void Stream::close()
{
    {
        std::lock_guard<std::mutex> l(m_);
        if (st_ == State::CLOSED) {
            return;
        }
        st_ = State::CLOSED;
        in_.clear();
        cv_.notify_all();
    }
    auto pr = peer;
    post([pr]() {
        if (auto q = pr.lock()) {
            q->peerGone(State::PEER_CLOSED);
        }
    });
}
void Stream::abort()
{
    ++W().c.resets;
    {
        std::lock_guard<std::mutex> l(m_);
        if (st_ == State::CLOSED) {
            return;
        }
        st_ = State::CLOSED;
        cv_.notify_all();
    }
    auto pr = peer;
    post([pr]() {
        if (auto q = pr.lock()) {
            q->peerGone(State::RESET);
        }
    });
}
size_t Stream::readSome(char* buf, size_t len)
{
    std::unique_lock<std::mutex> l(m_);
    cv_.wait(l, [this] { return !in_.empty() || st_ != State::OPEN; });
    if (in_.empty()) {
        return 0;
    }
    const size_t n = std::min(len, in_.size());
    std::memcpy(buf, in_.data(), n);
    in_.erase(0, n);
    return n;
}

ListenerPtr listen(int port, std::function<void(StreamPtr)> onAccept)
{
    if (W().occupied.count(port) != 0 || W().listeners.count(port) != 0) {
        ++W().c.bindFailures;
        return nullptr;
    }
    ++W().c.binds;
    auto l = std::make_shared<Listener>();
    l->node = sim::currentNode();
    l->port = port;
    l->onAccept = std::move(onAccept);
    W().listeners[port] = l;
    return l;
}
void unlisten(const ListenerPtr& l)
{
    if (l && l->open) {
        l->open = false;
        auto it = W().listeners.find(l->port);
        if (it != W().listeners.end() && it->second == l) {
            W().listeners.erase(it);
        }
    }
}
StreamPtr connectTo(const std::string& host, int port, int& err)
{
    (void)host;
    struct Wait {
        std::mutex m;
        std::condition_variable cv;
        bool done{false};
        int err{0};
        StreamPtr s;
    };
    auto w = std::make_shared<Wait>();
    const int me = sim::currentNode();
    auto it = W().listeners.find(port);
    const int other = (it != W().listeners.end()) ? it->second->node : me;
    uint64_t last = 0;
    send(me, other, last, [w, me, port]() {
        auto f = W().listeners.find(port);
        StreamPtr a;
        if (f == W().listeners.end() || !f->second->open || sim::nodeDead(f->second->node)) {
            ++W().c.refused;
        } else {
            ++W().c.connects;
            a = std::make_shared<Stream>();
            auto b = std::make_shared<Stream>();
            a->node = me;
            a->peerNode = f->second->node;
            b->node = f->second->node;
            b->peerNode = me;
            a->peer = b;
            b->peer = a;
            W().streams.push_back(a);
            W().streams.push_back(b);
            f->second->onAccept(b);
        }
        std::lock_guard<std::mutex> l(w->m);
        w->done = true;
        w->s = a;
        w->err = a ? 0 : ECONNREFUSED;
        w->cv.notify_all();
    });
    std::unique_lock<std::mutex> l(w->m);
    // a connect across a partition times out
    if (!w->cv.wait_for(l, std::chrono::seconds(5), [&] { return w->done; })) {
        err = ETIMEDOUT;
        return nullptr;
    }
    err = w->err;
    return w->s;
}
void killNodeConnections(int node)
{
    for (auto& ws : W().streams) {
        auto s = ws.lock();
        if (s && s->node == node) {
            auto pr = s->peer.lock();
            s->st_ = Stream::State::CLOSED;
            if (pr) {
                ++W().c.resets;
                const int pn = pr->node;
                uint64_t last = s->lastDeliver_;
                send(node, pn, last, [pr]() { pr->peerGone(Stream::State::RESET); });
            }
        }
    }
    for (auto it = W().listeners.begin(); it != W().listeners.end();) {
        if (it->second->node == node) {
            it->second->open = false;
            it = W().listeners.erase(it);
        } else {
            ++it;
        }
    }
}

// ---- datagrams
DgramPtr dgramOpen()
{
    auto s = std::make_shared<DgramSocket>();
    s->node = sim::currentNode();
    return s;
}
bool dgramBind(const DgramPtr& s, int port)
{
    if (port == 0) {
        port = W().nextEphemeral++;
    }
    if (W().occupied.count(port) != 0 || W().dgrams.count(port) != 0) {
        ++W().c.bindFailures;
        return false;
    }
    ++W().c.binds;
    s->port = port;
    W().dgrams[port] = s;
    return true;
}
static void dgramDeliver(int from, int toPort, int fromPort, const std::string& data)
{
    auto it = W().dgrams.find(toPort);
    if (it == W().dgrams.end()) {
        return;
    }
    auto s = it->second;
    if (isCut(from, s->node)) {
        ++W().c.partitionsDropped;
        return;
    }
    {
        std::lock_guard<std::mutex> l(s->m);
        if (s->closed) {
            return;
        }
        s->in.push_back({fromPort, data});
        s->cv.notify_all();
    }
    if (auto n = s->notify) {
        n();
    }
}
void dgramSend(const DgramPtr& s, int toPort, const std::string& data)
{
    if (s->port == 0) {
        dgramBind(s, 0);
    }
    auto& w = W();
    ++w.c.packets;
    w.c.bytes += data.size();
    if (w.p.dropDen > 0 && sim::chooseWeighted(sim::K_FAULT, 2, 1, w.p.dropDen) != 0) {
        ++w.c.dropped;
        return;
    }
    int copies = 1;
    if (w.p.dupDen > 0 && sim::chooseWeighted(sim::K_FAULT, 2, 1, w.p.dupDen) != 0) {
        ++w.c.duplicated;
        copies = 2;
    }
    const int from = s->node;
    const int fromPort = s->port;
    static std::map<std::pair<int, int>, uint64_t>* lastDel = nullptr;
    static World* lastWorld = nullptr;
    if (lastWorld != gW) {
        lastWorld = gW;
        lastDel = new std::map<std::pair<int, int>, uint64_t>();
    }
    for (int i = 0; i < copies; ++i) {
        uint64_t t = sim::nowNs() + pickDelay();
        auto& last = (*lastDel)[{fromPort, toPort}];
        if (!w.p.reorder) {
            if (t <= last) {
                t = last + 1;
            }
        } else if (t < last) {
            ++w.c.reordered;
        }
        last = std::max(last, t);
        sim::at(t, [from, toPort, fromPort, data]() { dgramDeliver(from, toPort, fromPort, data); });
    }
}
void dgramClose(const DgramPtr& s)
{
    if (!s) {
        return;
    }
    {
        std::lock_guard<std::mutex> l(s->m);
        s->closed = true;
        s->cv.notify_all();
    }
    auto it = W().dgrams.find(s->port);
    if (it != W().dgrams.end() && it->second == s) {
        W().dgrams.erase(it);
    }
    if (auto n = s->notify) {
        n();
    }
}
}  // namespace simnet
