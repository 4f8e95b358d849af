// The runtime behind vrt.hpp: fibers, schedules, simulated files, crash images.
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace vrt
{
// ---- scheduling
struct Choice
{
    int step;      // position in the run
    int target;    // fiber to run from here on
};
struct TracePoint
{
    int step;
    uint8_t cur;      // fiber running before (255: none)
    uint8_t chosen;
    uint16_t enabled; // bit mask
    bool free;        // not a preemption (start, end of a fiber, blocking)
};
enum Outcome
{
    OK,
    ABORT,
    HANG,
    SEGV
};
struct RunResult
{
    Outcome out = OK;
    int fiber = -1;
    std::string msg;
};
extern std::vector<Choice> forced;       // the schedule to follow
extern std::vector<Choice> taken;        // every deviation from the default that was made (replays the run)
extern std::vector<TracePoint> trace;    // decision points of the run
extern int totalSteps;
extern int stepCap;
extern int maxStops;                     // fibers that may be stopped for ever in a run
extern std::function<void(int)> onStop;
extern double randomSwitch;              // > 0: switch with this probability at candidate points
extern uint64_t rng;
uint64_t rnd();
inline uint64_t rnd(uint64_t n) { return n ? rnd() % n : 0; }
RunResult runFibers(const std::vector<std::function<void()>> &bodies, int firstId);
void settle();                           // waits until threads started by the library sleep
void forgetSharing();                    // new scenario: forget which addresses are shared
extern bool crashMode, wantLog, wantPtr;          // plain stores to files are noticed early; at all
extern size_t poolSize, poolReady;       // of libpmemobj: size, and the log position at which the pool exists
extern bool allCand;                     // every access is one (schedules that must not depend on earlier runs)
extern bool derefPoints;                 // following a persistent pointer is a scheduling point
extern bool quietCand;                   // no decision points are recorded (replay, recovery)

// ---- per-run state
void resetWorld();                       // fresh process, empty file system
void resetProcess();                     // fresh process, file system kept
void addModule(const char *soname);      // its data segments are reset by resetProcess
extern size_t arenaUsed();

// ---- file system and log
enum LogKind : uint8_t
{
    L_WRITE,
    L_FLUSH,
    L_FENCE,
    L_CREATE,
    L_TRUNC,
    L_UNLINK,
    L_RENAME,
    L_PTR,
    L_DUR // a store that is durable at once
};
struct LogEnt
{
    LogKind k;
    int8_t fiber;
    uint8_t size;
    int16_t ino;
    uint32_t off; // L_TRUNC: length
    uint64_t o, n;
    int name = -1, name2 = -1;
    bool glue = false; // no crash between this entry and the next one
};
extern std::vector<LogEnt> log_;
extern std::vector<std::string> names_;
void syncPlain(); // log stores that bypassed the instrumented types

struct FileImg
{
    std::string name;
    std::string data;
};
typedef std::vector<FileImg> Image;
void loadImage(const Image &img);
Image liveImage();

// Walks a log and builds crash images.
class CrashWalker
{
  public:
    explicit CrashWalker(const Image &start);
    void step(const LogEnt &e);
    // lines that may or may not have been written back
    size_t openLines() const;
    // pick[i] in 0..limit(i): how many of the pending stores of open line i reached memory
    std::vector<int> limits() const;
    Image build(const std::vector<int> &pick) const;

  private:
    struct F
    {
        std::string name;
        bool linked = true;
        std::string durable;
        // line -> pending stores
        std::map<uint32_t, std::vector<LogEnt>> pend;
        std::map<uint32_t, uint64_t> drained; // stores of the line already durable
    };
    struct Fl
    {
        int ino;
        uint32_t line;
        uint64_t upto;
    };
    std::vector<F> f;
    std::map<int, std::vector<Fl>> flushed;
};
const char *baseOf(uint64_t ptr, int &ino); // a pointer into a simulated file
} // namespace vrt
