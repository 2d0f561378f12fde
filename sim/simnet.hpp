// Simulated network: byte-stream connections, datagrams and framed message pipes between the nodes
// of a run. Every delivery is a simulator event; delay, loss, duplication, reordering, resets,
// refusals and partitions are decisions of the simulator.
#pragma once
#include <cstdint>
#include <functional>
#include <memory>
#include <mutex>
#include <condition_variable>
#include <deque>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace simnet {

struct Params {
    uint64_t minDelayNs = 20'000;  // one way
    uint64_t jitterNs = 200'000;  // extra delay, chosen per packet
    uint32_t slowDen = 0;  // 1/den packets are delayed a lot (0: never)
    uint64_t slowNs = 50'000'000;
    // datagrams only
    uint32_t dropDen = 0;
    uint32_t dupDen = 0;
    bool reorder = false;  // datagrams may overtake each other
    // streams only
    uint32_t splitDen = 0;  // 1/den writes are delivered in two segments
    uint32_t mergeDen = 0;  // 1/den: hold a segment so that it is delivered with the next one
};

struct Counters {
    uint64_t packets = 0, bytes = 0, dropped = 0, duplicated = 0, slowed = 0, split = 0, merged = 0;
    uint64_t partitionsHeld = 0, partitionsDropped = 0, resets = 0, refused = 0, reordered = 0;
    uint64_t binds = 0, bindFailures = 0, connects = 0;
};

Params& params();
Counters& counters();
void reset();  // forget everything (start of a run)

/** partitions: while cut, packets between a and b are held (streams) or lost (datagrams) */
void cut(int a, int b);
void heal(int a, int b);
void healAll();
bool isCut(int a, int b);

/** is the port faulted for binding (somebody else owns it) */
void occupyPort(int port);

// ---- byte streams -------------------------------------------------------------------------------
class Stream;
using StreamPtr = std::shared_ptr<Stream>;

/** one end of a connection */
class Stream: public std::enable_shared_from_this<Stream> {
  public:
    enum class State { OPEN, PEER_CLOSED, RESET, CLOSED };
    int node{0};
    int peerNode{0};
    std::weak_ptr<Stream> peer;
    std::string peerName;
    /** called (on the simulator's network fiber) whenever data or a close arrives */
    std::function<void()> notify;

    bool write(const char* data, size_t len);  // false: connection is gone
    /** take what has arrived */
    std::string takeAll();
    size_t available();
    State state();
    void close();  // orderly
    void abort();  // RST
    /** blocking read; 0 when closed/reset */
    size_t readSome(char* buf, size_t len);

  private:
    friend StreamPtr connectTo(const std::string&, int, int&);
    friend void killNodeConnections(int);
    std::mutex m_;
    std::condition_variable cv_;
    std::string in_;
    State st_{State::OPEN};
    uint64_t lastDeliver_{0};  // FIFO for what this end sends
    std::deque<std::function<void()>> held_;
    void deliver(std::string data);
    void peerGone(State s);
    void post(std::function<void()> fn);
};

struct Listener {
    int node{0};
    int port{0};
    std::function<void(StreamPtr)> onAccept;  // network fiber
    bool open{true};
};
using ListenerPtr = std::shared_ptr<Listener>;
/** null when the port is taken */
ListenerPtr listen(int port, std::function<void(StreamPtr)> onAccept);
void unlisten(const ListenerPtr& l);
/** blocking connect; err is an errno value on failure */
StreamPtr connectTo(const std::string& host, int port, int& err);
void killNodeConnections(int node);

// ---- datagrams ----------------------------------------------------------------------------------
struct Datagram {
    int fromPort{0};
    std::string data;
};
struct DgramSocket {
    int node{0};
    int port{0};
    std::mutex m;
    std::condition_variable cv;
    std::deque<Datagram> in;
    bool closed{false};
    std::function<void()> notify;
};
using DgramPtr = std::shared_ptr<DgramSocket>;
DgramPtr dgramOpen();
bool dgramBind(const DgramPtr& s, int port);  // false: in use
void dgramSend(const DgramPtr& s, int toPort, const std::string& data);
void dgramClose(const DgramPtr& s);

// ---- generic delayed FIFO link (used by the message transports) ---------------------------------
/** schedule fn after a simulated network delay from node a to node b, FIFO per `lane` (0 = own) */
void send(int a, int b, uint64_t& lastDeliver, std::function<void()> fn);
uint64_t pickDelay();

}  // namespace simnet
