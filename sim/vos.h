// The simulated operating system: files, directories, pipes to children, sockets, clocks, the dynamic
// loader, the stack walker.  It sits at the libc boundary: the simulator executable defines the
// symbols, so the library, libstdc++, libcurl, libexpat and libsndfile all run unchanged on top of it.
#ifndef VOS_H
#define VOS_H
#include "sim.h"
#include <time.h>
#include <map>
#include <memory>
namespace vos
{
    using sim::str;
    using sim::u64;
    void init();
    void begin(u64 seed);
    void end();
    bool active();
    u64 nowNs();                         // simulated steady time
    u64 elapsed();                       // since begin
    u64 jumped();                        // of which skipped waits
    void advance(u64 ns);
    void wallJump(long long ns);         // jumps of the real time clock
    void realClock(struct timespec*);
    void realSleep(const struct timespec*);

    // ---- files
    void mkdirs(const str& path);
    void put(const str& path, const str& data);
    void link(const str& path, const str& target);   // a symbolic link
    bool get(const str& path, str& data);
    void removePath(const str& path);
    void dirOrder(u64 seed, bool unknownTypes);
    void cwd(const str& path);
    void chunks(const std::vector<int>& readSizes, const std::vector<int>& writeSizes);
    void diskSpace(long bytes);          // left on the simulated disk; <0: unlimited
    long writesSeen();

    // ---- faults: the nth call of a class from now on; class "any" counts them all
    void fault(const str& cls, long nth, const str& kind, long arg = 0);
    void clearFaults();
    long fired();                        // hard faults fired since clearFaults
    long firedBenign();

    // ---- handles
    size_t openHandles(str* what = 0);
    size_t misuse(str* what = 0);        // uses of handles already closed
    // ---- children of popen
    struct Child { str command, input; bool closed = false; int closes = 0; long stopsAfter = -1; int failErrno = 0; };
    std::vector<std::shared_ptr<Child>>& children();
    void childStopsAfter(long bytes);    // for the next child

    // ---- dynamic loader
    struct DlEvent { str what, lib; };
    std::vector<DlEvent>& dlEvents();
    void probeFactory(void* f);          // "factory" of the simulated libraries libprobe*.so

    // ---- stack walker
    void stack(const std::vector<str>& symbols, bool symbolsFail);
    void stackReal();
    // ---- calls
    u64 syscalls();
    void syscallCap(u64 n);
    // something else acts on the world when the nth call from now is made
    void atCall(u64 n, std::function<void()> f);

    // used by net.cpp
    struct FaultHit { bool hit = false; str kind; long arg = 0; };
    FaultHit check(const char* cls);
    int newFd(int kind, void* net);
    void benign(const char* name);
    void hard(const char* name);
}
namespace net
{
    using sim::str;
    using sim::u64;
    struct Piece { str bytes; long delayNs; };
    struct Response
    {
        std::vector<Piece> pieces;       // in order of delivery
        str end = "close";               // after the last piece: close, reset, open (keeps the connection), stall
        long connectDelay = 0;
        str connect = "ok";              // ok, refused, unreachable, timeout
    };
    struct Server { std::vector<Response> script; size_t next = 0; std::vector<str> requests; long connections = 0; };
    Server& server();
    void reset();
    // fd operations for kind socket
    ssize_t sread(void* s, char* b, size_t n, bool peek);
    ssize_t swrite(void* s, const char* b, size_t n);
    int sclose(void* s);
    bool readable(void* s);
    bool writable(void* s);
    bool hup(void* s);
    bool nextEvent(u64& at);             // earliest pending event
    void run();                          // everything due by now
}
#endif
