// Operation codes shared by the explorer and the compiled libraries.
#pragma once
#include <cstdint>
enum OpCode
{
    // hash map
    O_GET,
    O_HAS,
    O_PUT,
    O_PIA,  // putIfAbsent
    O_REM,
    O_REMV, // remove(key, value)
    O_REPL, // replace(key, old, new)
    O_INC,  // update(key, increment)
    O_SIZE,
    O_EMPTY,
    // containers
    O_CINS,
    O_CERA,
    O_CHAS,
    O_CGET,
    O_CCNT,
    O_CINC,
    O_WAIT, // until the threads that the container started are idle
    O_NOPS
};
static const char *const opNames[] = {"get", "has", "put", "pia", "rem", "remv", "repl", "inc", "size", "empty",
                                      "cins", "cera", "chas", "cget", "ccnt", "cinc", "wait"};
// kinds of results
enum ResKind
{
    R_VALUE, // a raw value
    R_BOOL,
    R_NUM
};
extern "C"
{
    void *L_new(const char *kind, const char *path, uint64_t len, int reconstruct);
    uint64_t L_op(void *m, const char *kind, int op, uint64_t k, uint64_t a, uint64_t b);
    // sentinels and masks of the implementation
    uint64_t L_const(const char *what);
}
