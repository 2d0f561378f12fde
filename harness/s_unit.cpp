// scenarios about the building blocks: byte buffer, profiler file, log buffer, message encoding
#include "driver.hpp"

#include "helics/common/LogBuffer.hpp"
#include "helics/core/ActionMessage.hpp"
#include "helics/core/ProfilerBuffer.hpp"
#include "helics/core/SmallBuffer.hpp"
#include "helics/core/UnknownHandleManager.hpp"
#include "helics/core/flagOperations.hpp"

#include <algorithm>
#include <cerrno>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <map>
#include <new>
#include <optional>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/uio.h>
#include <sys/syscall.h>
#include <thread>
#include <unistd.h>
#include <vector>

using helics::SmallBuffer;
using chk::pick;
using chk::flip;

// ------------------------------------------------------------------ failing allocations
namespace {
bool gAllocArmed = false;
int gAllocCountdown = 0;
uint64_t gAllocFailed = 0;
struct AllocFault {
    explicit AllocFault(int n)
    {
        gAllocCountdown = n;
        gAllocArmed = true;
    }
    ~AllocFault() { gAllocArmed = false; }
};
}  // namespace

void* operator new[](std::size_t n)
{
    if (gAllocArmed && gAllocCountdown-- == 0) {
        gAllocArmed = false;
        ++gAllocFailed;
        throw std::bad_alloc();
    }
    void* p = std::malloc(n != 0 ? n : 1);
    if (p == nullptr) {
        throw std::bad_alloc();
    }
    return p;
}
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t) noexcept { std::free(p); }

// ------------------------------------------------------------------ failing disk
namespace {
struct DiskFault {
    bool on{false};
    int fd{-1};  // -1: any fd above 2
    uint32_t errDen{0};  // 1/den writes fail
    uint32_t shortDen{0};  // 1/den writes are short
    uint32_t intrDen{0};
    uint64_t errs{0}, shorts{0}, intrs{0}, writes{0};
} gDisk;
}  // namespace

static ssize_t diskWrite(int fd, const char* buf, size_t n)
{
    if (gDisk.on && fd > 2) {
        ++gDisk.writes;
        if (gDisk.intrDen != 0 && sim::chooseWeighted(sim::K_FAULT, 2, 1, gDisk.intrDen) != 0) {
            ++gDisk.intrs;
            errno = EINTR;
            return -1;
        }
        if (gDisk.errDen != 0 && sim::chooseWeighted(sim::K_FAULT, 2, 1, gDisk.errDen) != 0) {
            ++gDisk.errs;
            errno = sim::choose(sim::K_FAULT, 2) != 0 ? EIO : ENOSPC;
            return -1;
        }
        if (gDisk.shortDen != 0 && n > 1 && sim::chooseWeighted(sim::K_FAULT, 2, 1, gDisk.shortDen) != 0) {
            ++gDisk.shorts;
            n = 1 + sim::choose(sim::K_FAULT, n - 1);
        }
    }
    return syscall(SYS_write, fd, buf, n);
}
extern "C" ssize_t write(int fd, const void* buf, size_t n) { return diskWrite(fd, static_cast<const char*>(buf), n); }
extern "C" ssize_t writev(int fd, const struct iovec* iov, int cnt)
{
    if (gDisk.on && fd > 2) {
        std::string all;
        for (int i = 0; i < cnt; ++i) {
            all.append(static_cast<const char*>(iov[i].iov_base), iov[i].iov_len);
        }
        return diskWrite(fd, all.data(), all.size());
    }
    return syscall(SYS_writev, fd, iov, cnt);
}

// ------------------------------------------------------------------ small buffer
static std::string randomBytes(size_t n)
{
    std::string s;
    uint64_t h = 0x9E3779B97F4A7C15ull ^ pick(1000);
    for (size_t i = 0; i < n; ++i) {
        h = h * 6364136223846793005ull + 1442695040888963407ull;
        s.push_back(static_cast<char>(h >> 35));
    }
    return s;
}
static size_t randomSize()
{
    static const size_t around[] = {0, 1, 7, 63, 64, 65, 71, 72, 73, 80, 127, 128, 200, 1000, 5000};
    const auto v = pick(20);
    return v < 15 ? around[v] : pick(200);
}

static chk::Register c29("C29", "buffer_model", 1, [] {
    struct Item {
        SmallBuffer buf;
        std::string model;
        bool locked{false};
        bool unspecified{false};  // contents of bytes added without a value
        std::unique_ptr<std::string> span;  // memory lent to the buffer
    };
    // index of the bytes nobody wrote: tracked as wildcard positions
    std::vector<std::unique_ptr<Item>> v;
    std::vector<std::vector<bool>> wild;
    for (int i = 0; i < 4; ++i) {
        v.push_back(std::make_unique<Item>());
        wild.emplace_back();
    }
    auto compare = [&](size_t i, const char* op) {
        auto& it = *v[i];
        const auto s = it.buf.to_string();
        if (s.size() != it.model.size() || it.buf.size() != it.model.size() ||
            static_cast<size_t>(it.buf.end() - it.buf.begin()) != it.model.size() || it.buf.empty() != it.model.empty()) {
            chk::fail("size", "after %s: size %zu, expected %zu", op, s.size(), it.model.size());
        }
        if (it.buf.capacity() < it.buf.size()) {
            chk::fail("capacity", "after %s: capacity %zu below size %zu", op, it.buf.capacity(), it.buf.size());
        }
        for (size_t k = 0; k < s.size(); ++k) {
            if (k < wild[i].size() && wild[i][k]) {
                continue;
            }
            if (s[k] != it.model[k]) {
                chk::fail("contents", "after %s: byte %zu of %zu differs", op, k, s.size());
            }
        }
        if (it.buf.isLocked() != it.locked) {
            chk::fail("lock", "after %s: locked %d, expected %d", op, it.buf.isLocked() ? 1 : 0, it.locked ? 1 : 0);
        }
        // memory discipline: the buffer can be written up to its capacity
        for (size_t k = it.buf.size(); k < it.buf.capacity() && k < it.buf.size() + 4; ++k) {
            it.buf.data()[k] = std::byte{0x5A};
        }
    };
    const int ops = 10 + static_cast<int>(pick(60));
    std::string lastOp;
    for (int n = 0; n < ops; ++n) {
        const size_t i = pick(v.size());
        auto& it = *v[i];
        const auto data = randomBytes(randomSize());
        const bool failAlloc = chk::fault(1, 6);
        std::string newModel = it.model;
        auto newWild = wild[i];
        bool threw = false;
        const auto op = pick(19);
        chk::trace("op %d on %d size %d alloc-fail %d", static_cast<int>(op), static_cast<int>(i), static_cast<int>(data.size()), failAlloc ? 1 : 0);
        const char* name = "";
        const bool wasLocked = it.locked;
        const size_t cap = it.buf.capacity();
        newWild.resize(newModel.size());
        size_t need = 0;
        auto attempt = [&](const std::function<void()>& fn) {
            std::optional<AllocFault> f;
            if (failAlloc) {
                f.emplace(0);
            }
            try {
                fn();
            }
            catch (const std::bad_alloc&) {
                threw = true;
            }
        };
        switch (op) {
            case 0:
                name = "assign";
                need = data.size();
                attempt([&] { it.buf.assign(data.data(), data.size()); });
                newModel = data;
                newWild.assign(data.size(), false);
                break;
            case 1:
                name = "assign range";
                need = data.size();
                attempt([&] { it.buf.assign(data.data(), data.data() + data.size()); });
                newModel = data;
                newWild.assign(data.size(), false);
                break;
            case 2:
                name = "append";
                need = it.model.size() + data.size();
                attempt([&] { it.buf.append(std::string_view(data)); });
                newModel += data;
                newWild.resize(newModel.size(), false);
                break;
            case 3:
                name = "append data";
                need = it.model.size() + data.size();
                attempt([&] { it.buf.append(data.data(), data.size()); });
                newModel += data;
                newWild.resize(newModel.size(), false);
                break;
            case 4:
                name = "append range";
                need = it.model.size() + data.size();
                attempt([&] { it.buf.append(data.data(), data.data() + data.size()); });
                newModel += data;
                newWild.resize(newModel.size(), false);
                break;
            case 5:
                name = "push_back";
                need = it.model.size() + 1;
                attempt([&] { it.buf.push_back('q'); });
                newModel += 'q';
                newWild.resize(newModel.size(), false);
                break;
            case 6:
                name = "pop_back";
                it.buf.pop_back();
                if (!newModel.empty()) {
                    newModel.pop_back();
                    newWild.pop_back();
                }
                break;
            case 7: {
                name = "resize";
                const auto sz = randomSize();
                need = sz;
                attempt([&] { it.buf.resize(sz); });
                newWild.resize(sz, true);
                newModel.resize(sz, '?');
            } break;
            case 8: {
                name = "resize value";
                const auto sz = randomSize();
                need = sz;
                attempt([&] { it.buf.resize(sz, std::byte{'z'}); });
                newWild.resize(sz, false);
                newModel.resize(sz, 'z');
            } break;
            case 9: {
                name = "reserve";
                const auto sz = randomSize();
                need = sz;
                attempt([&] { it.buf.reserve(sz); });
                if (!threw && it.buf.capacity() < sz) {
                    chk::fail("reserve", "capacity %zu after reserving %zu", it.buf.capacity(), sz);
                }
            } break;
            case 10:
                name = "clear";
                it.buf.clear();
                newModel.clear();
                newWild.clear();
                break;
            case 11: {
                name = "swap";
                const size_t j = pick(v.size());
                if (j == i || it.locked || v[j]->locked) {
                    continue;
                }
                it.buf.swap(v[j]->buf);
                std::swap(it.model, v[j]->model);
                std::swap(wild[i], wild[j]);
                std::swap(it.span, v[j]->span);
                compare(j, name);
                compare(i, name);
                lastOp = name;
                continue;
            }
            case 12: {
                name = "copy assign";
                const size_t j = pick(v.size());
                if (j == i) {
                    const auto& self = it.buf;
                    it.buf = self;
                } else {
                    need = v[j]->model.size();
                    attempt([&] { it.buf = v[j]->buf; });
                    newModel = v[j]->model;
                    newWild = wild[j];
                }
            } break;
            case 13: {
                name = "move assign";
                const size_t j = pick(v.size());
                if (j == i || v[j]->locked || it.locked) {
                    continue;
                }
                it.buf = std::move(v[j]->buf);
                newModel = v[j]->model;
                newWild = wild[j];
                // the source is empty and usable afterwards
                it.span = std::move(v[j]->span);
                v[j]->model.clear();
                wild[j].clear();
                compare(j, "moved from");
            } break;
            case 14: {
                name = "construct copy";
                std::optional<SmallBuffer> c;
                attempt([&] { c.emplace(it.buf); });
                if (c) {
                    it.buf = *c;
                    if (!(*c == it.buf) || *c != it.buf) {
                        chk::fail("equality", "a copy differs from its original");
                    }
                }
                threw = false;
            } break;
            case 15: {
                name = "construct moved";
                if (it.locked) {
                    continue;
                }
                SmallBuffer c(std::move(it.buf));
                if (!it.buf.empty()) {
                    chk::fail("moved-from", "a moved from buffer has %zu bytes", it.buf.size());
                }
                if (c.size() != it.model.size()) {
                    chk::fail("size", "moved buffer has %zu bytes, expected %zu", c.size(), it.model.size());
                }
                // reuse of the moved from buffer does not touch the new one
                it.buf = std::string_view("xyz");
                SmallBuffer d(std::move(c));
                it.buf = std::move(d);
            } break;
            case 16: {
                name = "span assign";
                if (it.locked) {
                    continue;
                }
                auto mem = std::make_unique<std::string>(data);
                mem->resize(data.size() + 16);
                it.buf.spanAssign(mem->data(), data.size(), mem->size());
                it.span = std::move(mem);
                newModel = data;
                newWild.assign(data.size(), false);
            } break;
            case 17: {
                name = "lock";
                it.locked = flip(1, 2);
                it.buf.lock(it.locked);
            } break;
            default: {
                name = "move in and release";
                if (it.locked) {
                    continue;
                }
                auto* mem = new std::byte[data.size() + 32];
                std::memcpy(mem, data.data(), data.size());
                it.buf.moveAssign(mem, data.size(), data.size() + 32);
                newModel = data;
                newWild.assign(data.size(), false);
                if (flip(1, 2)) {
                    auto* r = it.buf.release();
                    if (r != mem) {
                        chk::fail("release", "released memory is not what was moved in");
                    }
                    delete[] r;
                    newModel.clear();
                    newWild.clear();
                }
            } break;
        }
        if (threw) {
            // a failed operation needed more than there was, and changed nothing
            chk::count("alloc.failed_operations");
            if (need <= cap) {
                chk::fail("spurious-failure", "%s of %zu bytes failed with capacity %zu", name, need, cap);
            }
        } else {
            if (wasLocked && need > cap) {
                chk::fail("locked-grew", "%s of %zu bytes went through on a locked buffer of capacity %zu", name, need, cap);
            }
            it.model = newModel;
            wild[i] = newWild;
        }
        compare(i, name);
        // bounds are checked
        bool oob = false;
        try {
            (void)it.buf.at(it.model.size());
        }
        catch (const std::out_of_range&) {
            oob = true;
        }
        if (!oob) {
            chk::fail("bounds", "at(size()) did not throw");
        }
        if (flip(1, 8)) {
            const auto c0 = it.buf.capacity();
            if (!(it.locked && c0 == it.buf.size())) {
                it.buf.null_terminate();
                if (it.buf.char_data()[it.model.size()] != '\0') {
                    chk::fail("null-terminate", "no null byte after the contents");
                }
                compare(i, "null_terminate");
            }
        }
        // buffers do not influence each other
        const size_t other = pick(v.size());
        compare(other, "an operation on another buffer");
        lastOp = name;
    }
    // the buffers that own memory go first, lent memory afterwards
    chk::nontrivial();
    chk::describe("%d operations on 4 buffers, last: %s", ops, lastOp.c_str());
});

// ------------------------------------------------------------------ profiler
namespace {
struct TempDir {
    std::string path;
    TempDir()
    {
        char t[] = "/tmp/helicssim.XXXXXX";
        path = mkdtemp(t);
    }
    ~TempDir()
    {
        for (const auto& f : files) {
            ::unlink(f.c_str());
        }
        ::rmdir(path.c_str());
    }
    std::string file(const std::string& n)
    {
        auto f = path + "/" + n;
        if (std::find(files.begin(), files.end(), f) == files.end()) {
            files.push_back(f);
        }
        return f;
    }
    std::vector<std::string> files;
};
std::string slurp(const std::string& f)
{
    std::ifstream in(f, std::ios::binary);
    std::stringstream s;
    s << in.rdbuf();
    return s.str();
}
}  // namespace

static chk::Register c31("C31", "profile_file", 1, [] {
    TempDir dir;
    const bool faulty = chk::fault(3, 4);
    gDisk = DiskFault{};
    if (faulty) {
        gDisk.errDen = 2 + static_cast<uint32_t>(sim::choose(sim::K_FAULT, 6));
        gDisk.shortDen = sim::choose(sim::K_FAULT, 2) != 0 ? 3 : 0;
        gDisk.intrDen = sim::choose(sim::K_FAULT, 2) != 0 ? 4 : 0;
    }
    // what was there before, what has to be there, in order, per file
    std::map<std::string, std::vector<std::string>> lines;
    std::map<std::string, std::string> initial;
    std::map<std::string, bool> failed;
    std::string current;
    std::vector<std::string> pending;
    int id = 0;
    int writesOk = 0, writesFailed = 0;
    {
        helics::ProfilerBuffer buf;
        auto setFile = [&](int k, bool append) {
            const auto f = dir.file("p" + std::to_string(k));
            if (initial.count(f) == 0 && flip(1, 2)) {
                std::ofstream o(f);
                o << "old" << k << "\n";
                o.close();
                initial[f] = "old" + std::to_string(k) + "\n";
            } else if (initial.count(f) == 0) {
                initial[f] = "";
            }
            buf.setOutputFile(f, append);
            current = f;
            if (!append) {
                initial[f] = "";
                lines[f].clear();
                failed[f] = false;
            }
        };
        setFile(0, flip(1, 2));
        const int ops = 4 + static_cast<int>(pick(20));
        for (int n = 0; n < ops; ++n) {
            switch (pick(6)) {
                case 0:
                case 1:
                case 2: {
                    static const size_t sz[] = {3, 60, 700, 9000};
                    std::string m = "<" + std::to_string(id++) + ">" + std::string(sz[pick(4)], static_cast<char>('a' + id % 26));
                    if (flip(1, 2)) {
                        buf.addMessage(m);
                    } else {
                        std::string copy = m;
                        buf.addMessage(std::move(copy));
                    }
                    pending.push_back(m);
                    if (flip(1, 6)) {
                        buf.addMessage(std::string());  // empty ones leave no trace
                    }
                } break;
                case 3:
                case 4: {
                    bool ok = true;
                    gDisk.on = true;
                    try {
                        buf.writeFile();
                    }
                    catch (const std::ios_base::failure&) {
                        ok = false;
                    }
                    gDisk.on = false;
                    if (ok) {
                        ++writesOk;
                        for (auto& m : pending) {
                            lines[current].push_back(m);
                        }
                        pending.clear();
                    } else {
                        ++writesFailed;
                        failed[current] = true;
                        if (!faulty) {
                            chk::fail("write-failed", "writing the profile failed on a healthy disk");
                        }
                    }
                } break;
                default:
                    if (pending.empty()) {
                        setFile(static_cast<int>(pick(2)), flip(1, 2));
                    }
                    break;
            }
        }
        // the destructor writes what is left, the disk works again
    }
    for (auto& m : pending) {
        lines[current].push_back(m);
    }
    for (auto& [f, want] : lines) {
        const auto text = slurp(f);
        size_t pos = initial[f].size();
        if (text.compare(0, pos, initial[f]) != 0) {
            chk::fail("earlier-content-lost", "%zu bytes of earlier content were not kept", pos);
        }
        if (!failed[f]) {
            std::string expect = initial[f];
            for (auto& m : want) {
                expect += m + "\n";
            }
            if (text != expect) {
                chk::fail("content", "the file has %zu bytes, expected %zu", text.size(), expect.size());
            }
            continue;
        }
        // failed writes may leave torn or repeated entries, but every message is there, in order
        for (auto& m : want) {
            const auto at = text.find(m + "\n", pos);
            if (at == std::string::npos) {
                chk::fail("message-lost", "a message of %zu bytes is missing after failed writes", m.size());
            }
            pos = at + 1;
        }
    }
    chk::count("disk.write_errors", gDisk.errs);
    chk::count("disk.short_writes", gDisk.shorts);
    chk::count("disk.interrupted_writes", gDisk.intrs);
    chk::count("reach.failed_flushes", static_cast<uint64_t>(writesFailed));
    chk::nontrivial();
    chk::describe("%d messages, %d flushes worked, %d failed, %zu files", id, writesOk, writesFailed, lines.size());
});

// ------------------------------------------------------------------ log buffer
static chk::Register c28("C28", "log_buffer", 1, [] {
    const auto capacity = pick(2) == 0 ? size_t{0} : 1 + pick(12);
    helics::LogBuffer buf(capacity);
    const int threads = 1 + static_cast<int>(pick(3));
    const bool resizing = flip(1, 3);
    std::vector<std::thread> th;
    const int per = 3 + static_cast<int>(pick(20));
    size_t maxCap = capacity;
    if (resizing) {
        maxCap = std::max<size_t>(maxCap, 12);
    }
    std::atomic<int> running{threads};
    for (int t = 0; t < threads; ++t) {
        th.emplace_back([&, t] {
            for (int k = 0; k < per; ++k) {
                buf.push(t, "h" + std::to_string(t), std::to_string(k));
                if (k % 3 == 0) {
                    sim::yieldPoint();
                }
            }
            --running;
        });
    }
    auto inspect = [&] {
        std::vector<int> last(static_cast<size_t>(threads), -1);
        size_t n = 0;
        buf.process([&](int level, std::string_view header, std::string_view message) {
            ++n;
            if (level < 0 || level >= threads || header != "h" + std::to_string(level)) {
                chk::fail("entry", "level %d with header %s", level, std::string(header).c_str());
            }
            const int k = std::stoi(std::string(message));
            if (k <= last[static_cast<size_t>(level)]) {
                chk::fail("order", "entry %d of thread %d after entry %d", k, level, last[static_cast<size_t>(level)]);
            }
            last[static_cast<size_t>(level)] = k;
        });
        if (n > maxCap) {
            chk::fail("capacity", "%zu entries in a buffer of at most %zu", n, maxCap);
        }
        return n;
    };
    if (resizing) {
        th.emplace_back([&] {
            for (int k = 0; k < 4; ++k) {
                switch (pick(3)) {
                    case 0:
                        buf.resize(1 + pick(12));
                        break;
                    case 1:
                        buf.enable(true);
                        break;
                    default:
                        buf.enable(flip(1, 2));
                        break;
                }
                inspect();
                sim::yieldPoint();
            }
        });
    }
    while (running.load() > 0) {
        inspect();
        sim::sleepNs(1000);
    }
    for (auto& t : th) {
        t.join();
    }
    const auto n = inspect();
    const auto total = static_cast<size_t>(threads) * static_cast<size_t>(per);
    if (!resizing) {
        if (n != std::min(capacity, total)) {
            chk::fail("retained", "%zu entries retained of %zu with capacity %zu", n, total, capacity);
        }
        if (threads == 1 && capacity > 0) {
            // the newest ones
            size_t k = total - n;
            buf.process([&](int, std::string_view, std::string_view message) {
                if (std::to_string(k) != message) {
                    chk::fail("not-newest", "entry %s where %zu was expected", std::string(message).c_str(), k);
                }
                ++k;
            });
        }
    } else if (n > buf.capacity()) {
        chk::fail("capacity", "%zu entries with capacity %zu", n, buf.capacity());
    }
    chk::nontrivial();
    chk::describe("%d threads, %d entries each, capacity %zu%s", threads, per, capacity, resizing ? ", resized meanwhile" : "");
});

// ------------------------------------------------------------------ message encoding
using helics::ActionMessage;
namespace {
ActionMessage randomMessage()
{
    static const helics::action_message_def::action_t acts[] = {
        helics::CMD_SEND_MESSAGE, helics::CMD_PUB, helics::CMD_TIME_REQUEST, helics::CMD_TIME_GRANT, helics::CMD_REG_FED,
        helics::CMD_MULTI_MESSAGE, helics::CMD_QUERY, helics::CMD_PING, helics::CMD_DISCONNECT, helics::CMD_PROTOCOL,
        helics::CMD_EXEC_REQUEST, helics::CMD_LOG, helics::CMD_REG_ENDPOINT, helics::CMD_SEND_COMMAND, helics::CMD_INIT};
    ActionMessage m(acts[pick(15)]);
    auto num = [] {
        static const int32_t special[] = {0, 1, -1, 0x7FFFFFFF, INT32_MIN, 131072, 1879048192, -1700000000, 0xF3, 0x7B};
        return special[pick(10)];
    };
    m.messageID = num();
    m.source_id = helics::GlobalFederateId(num());
    m.source_handle = helics::InterfaceHandle(num());
    m.dest_id = helics::GlobalFederateId(num());
    m.dest_handle = helics::InterfaceHandle(num());
    m.counter = static_cast<uint16_t>(pick(4) == 3 ? 0xFFFF : pick(300));
    m.flags = static_cast<uint16_t>(pick(0x10000));
    helics::action_message_def::action_t a = m.action();
    // the choice of the encoding is not part of the message
    m.flags &= static_cast<uint16_t>(~helics::make_flags(helics::use_json_serialization_flag));
    m.sequenceID = static_cast<uint32_t>(num());
    auto tm = [] {
        static const int64_t special[] = {0, 1, -1, 1000000000, INT64_MAX, INT64_MIN, 123456789012345678LL, -500};
        helics::Time t;
        t.setBaseTimeCode(special[pick(8)]);
        return t;
    };
    m.actionTime = tm();
    if (a == helics::CMD_TIME_REQUEST) {
        m.Te = tm();
        m.Tdemin = tm();
        m.Tso = tm();
        return m;
    }
    auto text = [](size_t n) {
        auto s = randomBytes(n);
        if (flip(1, 2)) {
            for (auto& c : s) {
                c = static_cast<char>('a' + (static_cast<unsigned char>(c) % 26));
            }
        }
        return s;
    };
    static const size_t sizes[] = {0, 1, 8, 63, 64, 65, 255, 256, 1000, 66000};
    m.payload = text(sizes[pick(10)]);
    const auto strings = pick(6);
    for (uint64_t i = 0; i < (strings == 5 ? 100 : strings); ++i) {
        m.setString(static_cast<int>(i), text(pick(30)));
    }
    return m;
}
void same(const ActionMessage& a, const ActionMessage& b, const char* how)
{
    auto bad = [&](const char* f) { chk::fail("round-trip", "%s: field %s differs", how, f); };
    if (a.action() != b.action()) bad("action");
    if (a.messageID != b.messageID) bad("messageID");
    if (a.source_id != b.source_id) bad("source_id");
    if (a.source_handle != b.source_handle) bad("source_handle");
    if (a.dest_id != b.dest_id) bad("dest_id");
    if (a.dest_handle != b.dest_handle) bad("dest_handle");
    if (a.counter != b.counter) bad("counter");
    if (a.flags != b.flags) bad("flags");
    if (a.sequenceID != b.sequenceID) bad("sequenceID");
    if (a.actionTime != b.actionTime) bad("actionTime");
    if (a.Te != b.Te) bad("Te");
    if (a.Tdemin != b.Tdemin) bad("Tdemin");
    if (a.Tso != b.Tso) bad("Tso");
    if (a.payload.to_string() != b.payload.to_string()) bad("payload");
    if (a.getStringData() != b.getStringData()) bad("strings");
}
/** what a machine of the opposite byte order would have written for the message */
std::string otherEndian(std::string s)
{
    auto swap = [&](size_t at, size_t n) { std::reverse(s.begin() + static_cast<std::ptrdiff_t>(at), s.begin() + static_cast<std::ptrdiff_t>(at + n)); };
    auto get = [&](size_t at) {
        uint32_t v;
        std::memcpy(&v, &s[at], 4);
        return v;
    };
    s[0] = s[0] == 0 ? 1 : 0;
    const size_t payload = (static_cast<unsigned char>(s[1]) << 16U) + (static_cast<unsigned char>(s[2]) << 8U) + static_cast<unsigned char>(s[3]);
    const bool request = get(4) == static_cast<uint32_t>(helics::CMD_TIME_REQUEST);
    for (size_t at = 4; at < 28; at += 4) {
        swap(at, 4);
    }
    swap(28, 2);
    swap(30, 2);
    swap(32, 4);
    swap(36, 8);
    size_t at = 44;
    if (request) {
        for (int k = 0; k < 3; ++k, at += 8) {
            swap(at, 8);
        }
    }
    at += payload;
    const auto strings = static_cast<unsigned char>(s[at++]);
    for (int k = 0; k < strings; ++k) {
        const auto n = get(at);
        swap(at, 4);
        at += 4 + n;
    }
    return s;
}
/** memory that ends at an unreadable page */
struct Guarded {
    char* base;
    size_t total;
    char* data;
    explicit Guarded(const std::string& s)
    {
        const size_t page = 4096;
        total = (s.size() + page - 1) / page * page + page;
        base = static_cast<char*>(mmap(nullptr, total, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
        mprotect(base + total - page, page, PROT_NONE);
        data = base + total - page - s.size();
        std::memcpy(data, s.data(), s.size());
    }
    ~Guarded() { munmap(base, total); }
};
}  // namespace

static chk::Register c21a("C21", "round_trip", 40, [] {
    const int n = 1 + static_cast<int>(pick(6));
    std::string stream;
    std::vector<ActionMessage> msgs;
    for (int i = 0; i < n; ++i) {
        const auto m = randomMessage();
        const auto s = m.to_string();
        if (static_cast<int>(s.size()) != m.serializedByteCount()) {
            chk::fail("size", "%zu bytes written, %d announced", s.size(), m.serializedByteCount());
        }
        {
            Guarded g(s);
            ActionMessage b;
            const auto used = b.fromByteArray(reinterpret_cast<const std::byte*>(g.data), s.size());
            if (used != s.size()) {
                chk::fail("consumed", "%zu of %zu bytes used", used, s.size());
            }
            same(m, b, "bytes");
        }
        {
            ActionMessage b(s);
            same(m, b, "string");
            // the same message from a machine of the other byte order, into an object that held another one
            ActionMessage x = randomMessage();
            const auto o = otherEndian(s);
            if (x.fromByteArray(reinterpret_cast<const std::byte*>(o.data()), o.size()) != o.size()) {
                chk::fail("consumed", "the message of another byte order was not read completely");
            }
            same(m, x, "other byte order");
            ActionMessage y = randomMessage();
            y.from_string(s);
            same(m, y, "reused object");
            ActionMessage c(m.to_vector());
            same(m, c, "vector");
            ActionMessage d(b);
            same(m, d, "copy");
            ActionMessage e(std::move(d));
            same(m, e, "move");
            d = std::move(e);
            same(m, d, "move assignment");
            e = d;
            same(m, e, "copy assignment");
        }
        {
            const auto j = m.to_json_string();
            ActionMessage b;
            if (!b.from_json_string(j)) {
                chk::fail("json", "the JSON form cannot be read");
            }
            same(m, b, "json");
            const auto pj = m.packetize_json();
            ActionMessage c;
            if (c.depacketize(pj.data(), pj.size()) != pj.size()) {
                chk::fail("json-packet", "the JSON packet cannot be read");
            }
            same(m, c, "json packet");
        }
        // a buffer that is one byte too short is refused
        std::vector<std::byte> small(s.size() - 1);
        if (m.toByteArray(small.data(), small.size()) >= 0) {
            chk::fail("overrun", "a message of %zu bytes was written into %zu", s.size(), small.size());
        }
        stream += m.packetize();
        msgs.push_back(m);
    }
    // a stream of packets that arrives in pieces: nothing is read before it is complete
    size_t have = 0;
    size_t start = 0;
    size_t next = 0;
    while (next < msgs.size()) {
        if (have > start) {
            Guarded g(stream.substr(start, have - start));
            ActionMessage b;
            const auto used = b.depacketize(g.data, have - start);
            if (used > have - start) {
                chk::fail("consumed", "more bytes used than there are");
            }
            if (used > 0) {
                same(msgs[next], b, "stream");
                ++next;
                start += used;
                continue;
            }
        }
        if (have == stream.size()) {
            chk::fail("stream", "a complete packet was not recognized");
        }
        const size_t chunk = 1 + pick(pick(2) == 0 ? 3000 : 40);
        have = std::min(stream.size(), have + chunk);
    }
    if (start != stream.size()) {
        chk::fail("stream", "%zu bytes left over", stream.size() - start);
    }
    chk::nontrivial();
    chk::describe("%d messages, %zu bytes", n, stream.size());
});

// payloads at and beyond the largest size of the length field
static std::vector<char> hugeBytes(size_t n)
{
    std::vector<char> v(n);
    for (size_t i = 0; i < n; i += 997) {
        v[i] = static_cast<char>('a' + i % 26);
    }
    return v;
}
static chk::Register c21h("C21", "huge_payload", 1, [] {
    ActionMessage m(helics::CMD_PUB);
    const size_t n = 0x00FFFFFE + pick(4);
    const auto v = hugeBytes(n);
    m.payload.assign(v.data(), v.size());
    if (flip(1, 2)) {
        m.setString(0, "text");
        m.setString(1, std::string(pick(300), 's'));
    }
    std::vector<char> bytes(flip(1, 2) ? n + 1000 : 10, 'x');
    m.to_vector(bytes);
    if (static_cast<int>(bytes.size()) != m.serializedByteCount()) {
        chk::fail("size", "%zu bytes written, %d announced", bytes.size(), m.serializedByteCount());
    }
    ActionMessage b;
    if (b.fromByteArray(reinterpret_cast<const std::byte*>(bytes.data()), bytes.size()) != bytes.size()) {
        chk::fail("consumed", "not all of %zu bytes used", bytes.size());
    }
    same(m, b, "huge payload");
    chk::nontrivial();
    chk::describe("payload of %zu bytes", n);
});
// packets of 16 MB and more: their size does not fit into the header (known finding)
static chk::Register c21p("C21", "huge_packet", 1, [] {
    ActionMessage m(helics::CMD_PUB);
    const auto v = hugeBytes(0x01000000 + pick(100));
    m.payload.assign(v.data(), v.size());
    const auto p = m.packetize();
    ActionMessage b;
    if (b.depacketize(p.data(), p.size()) != p.size()) {
        chk::fail("huge-packet", "a packet of %zu bytes cannot be read", p.size());
    }
    same(m, b, "huge packet");
    chk::nontrivial();
});

static chk::Register c21b("C21", "damaged_bytes", 40, [] {
    const auto m = randomMessage();
    static const char* forms[] = {"bytes", "packet", "json", "json packet"};
    const auto form = pick(4);
    std::string s = form == 0 ? m.to_string() : form == 1 ? m.packetize() : form == 2 ? m.to_json_string() : m.packetize_json();
    if (s.size() > 3000) {
        s.resize(3000);
    }
    const int rounds = 20;
    for (int r = 0; r < rounds; ++r) {
        std::string t = s;
        const auto kinds = 1 + sim::choose(sim::K_FAULT, 3);
        for (uint64_t k = 0; k < kinds && !t.empty(); ++k) {
            switch (sim::choose(sim::K_FAULT, 6)) {
                case 0:
                    t.resize(sim::choose(sim::K_FAULT, t.size()) + 1);
                    chk::count("net.truncated_messages");
                    break;
                case 1:
                case 2:
                    t[sim::choose(sim::K_FAULT, t.size())] = static_cast<char>(sim::choose(sim::K_FAULT, 256));
                    chk::count("net.corrupted_bytes");
                    break;
                case 3:
                    t[sim::choose(sim::K_FAULT, std::min<size_t>(t.size(), 60))] = static_cast<char>(sim::choose(sim::K_FAULT, 256));
                    chk::count("net.corrupted_headers");
                    break;
                case 4:
                    t[sim::choose(sim::K_FAULT, t.size())] ^= static_cast<char>(1u << sim::choose(sim::K_FAULT, 8));
                    chk::count("net.flipped_bits");
                    break;
                default: {
                    const auto at = sim::choose(sim::K_FAULT, t.size());
                    t.erase(at, 1 + sim::choose(sim::K_FAULT, 4));
                    chk::count("net.lost_bytes");
                } break;
            }
        }
        if (t.empty()) {
            continue;
        }
        Guarded g(t);
        ActionMessage b;
        std::size_t used = form == 1 || form == 3 ? b.depacketize(g.data, t.size()) : b.from_string(std::string_view(g.data, t.size()));
        if (used > t.size()) {
            chk::fail("consumed", "%zu bytes used of %zu damaged ones (%s)", used, t.size(), forms[form]);
        }
        // whatever came out is a usable message
        const auto again = b.to_string();
        (void)again;
        (void)helics::prettyPrintString(b);
    }
    chk::nontrivial();
    chk::describe("%s of %zu bytes damaged %d times", forms[form], s.size(), rounds);
});

// ------------------------------------------------------------------ unknown names
static chk::Register c16u("C16", "unknown_names_model", 50, [] {
    helics::UnknownHandleManager mgr;
    using TI = std::pair<helics::GlobalHandle, uint16_t>;
    std::vector<std::pair<std::string, TI>> known[4], reconn[4];  // pub, input, endpoint, filter
    std::vector<std::pair<std::string, std::string>> links[4];  // data, endpoint, source filter, dest filter
    auto name = [] { return "n" + std::to_string(pick(5)); };
    auto target = [] {
        return helics::GlobalHandle(helics::GlobalFederateId(131072 + static_cast<int32_t>(pick(4))),
                                    helics::InterfaceHandle(static_cast<int32_t>(pick(6))));
    };
    auto flagset = [] {
        uint16_t f = 0;
        if (flip(1, 3)) {
            f |= helics::make_flags(helics::optional_flag);
        }
        if (flip(1, 3)) {
            f |= helics::make_flags(helics::required_flag);
        }
        return f;
    };
    auto key = [](const TI& t) {
        return std::to_string(t.first.fed_id.baseValue()) + "/" + std::to_string(t.first.handle.baseValue()) + "/" + std::to_string(t.second);
    };
    const int ops = 5 + static_cast<int>(pick(40));
    for (int n = 0; n < ops; ++n) {
        const auto k = pick(4);
        const auto nm = name();
        switch (pick(7)) {
            case 0:
            case 1:
            case 2: {
                const auto t = target();
                const auto f = flagset();
                switch (k) {
                    case 0: mgr.addUnknownPublication(nm, t, f); break;
                    case 1: mgr.addUnknownInput(nm, t, f); break;
                    case 2: mgr.addUnknownEndpoint(nm, t, f); break;
                    default: mgr.addUnknownFilter(nm, t, f); break;
                }
                known[k].emplace_back(nm, TI(t, f));
            } break;
            case 3: {
                const auto to = name();
                switch (k) {
                    case 0: mgr.addDataLink(nm, to); break;
                    case 1: mgr.addEndpointLink(nm, to); break;
                    case 2: mgr.addSourceFilterLink(nm, to); break;
                    default: mgr.addDestinationFilterLink(nm, to); break;
                }
                links[k].emplace_back(nm, to);
            } break;
            case 4: {
                const auto t = target();
                const auto f = flagset();
                switch (k) {
                    case 0: mgr.addReconnectablePublication(nm, t, f); break;
                    case 1: mgr.addReconnectableInput(nm, t, f); break;
                    case 2: mgr.addReconnectableEndpoint(nm, t, f); break;
                    default: mgr.addReconnectableFilter(nm, t, f); break;
                }
                reconn[k].emplace_back(nm, TI(t, f));
            } break;
            case 5: {
                auto drop = [&](auto& v) {
                    v.erase(std::remove_if(v.begin(), v.end(), [&](auto& e) { return e.first == nm; }), v.end());
                };
                switch (k) {
                    case 0: mgr.clearPublication(nm); drop(known[0]); drop(links[0]); break;
                    case 1: mgr.clearInput(nm); drop(known[1]); break;
                    case 2: mgr.clearEndpoint(nm); drop(known[2]); drop(links[1]); break;
                    default: mgr.clearFilter(nm); drop(known[3]); drop(links[2]); drop(links[3]); break;
                }
            } break;
            default: {
                if (flip(1, 2)) {
                    const helics::GlobalFederateId g(131072 + static_cast<int32_t>(pick(4)));
                    mgr.clearFederateUnknowns(g);
                    for (auto& v : known) {
                        v.erase(std::remove_if(v.begin(), v.end(), [&](auto& e) { return e.second.first.fed_id == g; }), v.end());
                    }
                } else {
                    mgr.clearUnknownsIf([&](const std::string& x, helics::InterfaceType ty, TI t) {
                        return x == nm && (t.first.handle.baseValue() % 2 == 0) && ty != helics::InterfaceType::FILTER;
                    });
                    for (int q = 0; q < 3; ++q) {
                        auto& v = known[q];
                        v.erase(std::remove_if(v.begin(), v.end(), [&](auto& e) { return e.first == nm && e.second.first.handle.baseValue() % 2 == 0; }), v.end());
                    }
                }
            } break;
        }
        // compare
        auto cmp = [&](const char* what, const std::vector<TI>& got, const std::vector<std::pair<std::string, TI>>& v, const std::string& nmx) {
            std::multiset<std::string> a, b;
            for (auto& g : got) {
                a.insert(key(g));
            }
            for (auto& e : v) {
                if (e.first == nmx) {
                    b.insert(key(e.second));
                }
            }
            if (a != b) {
                chk::fail("lookup", "%s: %zu entries for %s, expected %zu", what, a.size(), nmx.c_str(), b.size());
            }
        };
        auto cmps = [&](const char* what, const std::vector<std::string>& got, const std::vector<std::pair<std::string, std::string>>& v, const std::string& nmx) {
            std::multiset<std::string> a(got.begin(), got.end()), b;
            for (auto& e : v) {
                if (e.first == nmx) {
                    b.insert(e.second);
                }
            }
            if (a != b) {
                chk::fail("links", "%s: %zu links for %s, expected %zu", what, a.size(), nmx.c_str(), b.size());
            }
        };
        for (int q = 0; q < 5; ++q) {
            const auto x = "n" + std::to_string(q);
            cmp("publications", mgr.checkForPublications(x), known[0], x);
            cmp("inputs", mgr.checkForInputs(x), known[1], x);
            cmp("endpoints", mgr.checkForEndpoints(x), known[2], x);
            cmp("filters", mgr.checkForFilters(x), known[3], x);
            cmp("reconnectable publications", mgr.checkForReconnectionPublications(x), reconn[0], x);
            cmp("reconnectable inputs", mgr.checkForReconnectionInputs(x), reconn[1], x);
            cmp("reconnectable endpoints", mgr.checkForReconnectionEndpoints(x), reconn[2], x);
            cmp("reconnectable filters", mgr.checkForReconnectionFilters(x), reconn[3], x);
            cmps("data", mgr.checkForLinks(x), links[0], x);
            cmps("endpoint", mgr.checkForEndpointLinks(x), links[1], x);
            cmps("source filter", mgr.checkForFilterSourceTargets(x), links[2], x);
            cmps("destination filter", mgr.checkForFilterDestTargets(x), links[3], x);
        }
        bool any = false, nonOptional = false, required = false;
        size_t nAll = 0, nNonOpt = 0, nReq = 0, nLinks = 0;
        for (auto& v : known) {
            for (auto& e : v) {
                any = true;
                ++nAll;
                if ((e.second.second & helics::make_flags(helics::optional_flag)) == 0) {
                    nonOptional = true;
                    ++nNonOpt;
                }
                if ((e.second.second & helics::make_flags(helics::required_flag)) != 0) {
                    required = true;
                    ++nReq;
                }
            }
        }
        for (auto& v : links) {
            nLinks += v.size();
        }
        any = any || nLinks > 0;
        nonOptional = nonOptional || nLinks > 0;
        if (mgr.hasUnknowns() != any) {
            chk::fail("has-unknowns", "hasUnknowns %d, expected %d", mgr.hasUnknowns() ? 1 : 0, any ? 1 : 0);
        }
        if (mgr.hasNonOptionalUnknowns() != nonOptional) {
            chk::fail("has-non-optional", "hasNonOptionalUnknowns %d, expected %d", mgr.hasNonOptionalUnknowns() ? 1 : 0, nonOptional ? 1 : 0);
        }
        if (mgr.hasRequiredUnknowns() != required) {
            chk::fail("has-required", "hasRequiredUnknowns %d, expected %d", mgr.hasRequiredUnknowns() ? 1 : 0, required ? 1 : 0);
        }
        size_t c1 = 0, c2 = 0, c3 = 0, c4 = 0;
        auto check = [&](const std::string& x, helics::InterfaceType ty, TI t, auto pred) {
            const int q = ty == helics::InterfaceType::PUBLICATION ? 0 : ty == helics::InterfaceType::INPUT ? 1 : ty == helics::InterfaceType::ENDPOINT ? 2 : 3;
            const bool found = std::any_of(known[q].begin(), known[q].end(), [&](auto& e) { return e.first == x && key(e.second) == key(t); });
            if (!found || !pred(t.second)) {
                chk::fail("process", "%s was reported as unknown", x.c_str());
            }
        };
        mgr.processUnknowns([&](const std::string& x, helics::InterfaceType ty, TI t) { ++c1; check(x, ty, t, [](uint16_t) { return true; }); });
        mgr.processNonOptionalUnknowns([&](const std::string& x, helics::InterfaceType ty, TI t) { ++c2; check(x, ty, t, [](uint16_t f) { return (f & helics::make_flags(helics::optional_flag)) == 0; }); });
        mgr.processRequiredUnknowns([&](const std::string& x, helics::InterfaceType ty, TI t) { ++c3; check(x, ty, t, [](uint16_t f) { return (f & helics::make_flags(helics::required_flag)) != 0; }); });
        mgr.processUnknownLinks([&](const std::string&, helics::InterfaceType, const std::string&, helics::InterfaceType) { ++c4; });
        if (c1 != nAll || c2 != nNonOpt || c3 != nReq || c4 != nLinks) {
            chk::fail("process-count", "%zu/%zu/%zu/%zu unknowns reported, expected %zu/%zu/%zu/%zu", c1, c2, c3, c4, nAll, nNonOpt, nReq, nLinks);
        }
    }
    chk::nontrivial();
    chk::describe("%d operations", ops);
});
