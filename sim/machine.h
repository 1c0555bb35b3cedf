// The register machine: registers hold library numbers, operations are public API calls.
#ifndef SIM_MACHINE_H
#define SIM_MACHINE_H
#include <iosfwd>
#include <string>
#include <vector>
#include "model.h"
#include "seam.h"
enum OpKind {
    ADDEQ, SUBEQ, MULEQ, DIVEQ, ADD, SUB, MUL, DIV,
    LIT, COPY, CCTOR, MOVE, MCTOR, DEFCTOR,
    SETDESC, PUSHB, PUSHF, PUSHAT, POPB, POPF, POPAT, RESIZE, CLEAR, POKE,
    IDXR, IDXW, CMP, PRINT, DIAG, DIGIN, SWITCH, SWAP, XFORM, PHASE, ENVIR, NOPKINDS
};
extern const char* const OP_NAMES[NOPKINDS];
struct StreamFault {
    int mode = 0;              // 0 healthy, 1 refuses at byte n for good, 2 refuses once at byte n, 3 throws at byte n for good, 4 throws once at byte n
    u64 n = 0;
    u64 chunk = 0;             // 0 unbuffered, otherwise buffer size / chunk size
    int exmask = 0;            // stream.exceptions(): 1 bad, 2 fail, 4 eof
};
struct Op {
    int kind = 0, d = 0, a = 0, b = 0;
    int desc = 0;
    // PHASE: the following operations run at stage d of the process: 1 main, 2 a thread of their own, 3 a forked child, 4 an exit handler, 5 the destructor of a static object
    // ENVIR: from here on the surroundings are different (env.h): d what, a how, pos seed
    int t = 0;                             // schedsim: calling thread, -1 set-up; SWITCH: thread t, before its event pos, hands over to thread d
    u64 pos = 0, dig = 0;
    std::vector<u64> digits;               // most significant first for LIT; values for DIGIN
    std::vector<AllocFault> f;             // faults for successive attempts
    int sweep = 0;                         // 1: fail 1st, 2nd, 3rd ... allocation; 2: persistent from 1st, 2nd ...
    int how = 0;                           // in which C++ form the call is written (machine_impl.h)
    int in = 0;                            // > 0: runs inside the preceding operation of the level below, on numbers of its own, when the library calls out:
    char at = 0; u64 atk = 0;              // at its atk-th allocation 'a', release 'r' or device call 'd'; 's': just before that operation
    u64 rep = 0;                           // the client has made the same call that many times before, on the same numbers
    int retry = 0;                         // client retries from saved operands until it succeeds
    int restore = 0;                       // how the client restores a failed target: 0 assign, 1 clear then assign, 2 move-assign a fresh copy, 3 clear and push digits, 4 clear and add
    StreamFault sf;
};
struct CmpOut { bool eq, ne, lt, le, gt, ge, pos, neg, inf, nan; u64 size; int desc; };
struct ThrowDev { int at; };               // thrown by a simulated device
struct IMach {
    bool ref_ok = true;                                // the last assignment returned its own target
    virtual ~IMach() {}
    virtual const char* name() const = 0;
    virtual u64 base() const = 0;
    virtual unsigned digit_bytes() const = 0;
    virtual bool digit_class() const = 0;  // digits are BNIntType objects
    virtual bool tight() const { return false; }
    virtual bool is_deque() const { return false; }
    virtual void reset(int n) = 0;
    virtual void get(int r, Rep& out) = 0;
    virtual void put(int r, const Rep& in) = 0;       // harness restore through assignment
    virtual void restore(int r, const Rep& in, int how) = 0;
    virtual void run(const Op& op) = 0;               // arms around exactly the library call
    virtual void cmp(int a, int b, CmpOut& out) = 0;  // armed
    virtual u64 idx_read(int r, u64 pos, int how) = 0;         // armed
    // how > 0: the reference is held while the number is used (1 compared with, 2 printed, 3 copied, 4 copied by assignment, 5 added to other, 6 asked, 7 multiplied by other); kept: the copy, looked at after the write
    virtual void idx_write(int r, u64 pos, u64 dig, int how, int other, Rep& kept) = 0;
    virtual void print(int r, std::ostream& o) = 0;   // armed
    virtual void digit_print(u64 dig, std::ostream& o) = 0;
    virtual u64 digit_read(std::istream& i, u64 init) = 0;  // armed
};
// op: 0 transform, 1 inverse, 2 there and back, 3 packed convolution of a and b, 4 of a with itself; flt: 0 double, 1 float, 2 long double
bool xform(const std::string& inst, int op, int flt, std::vector<long double>& re, std::vector<long double>& im, const std::vector<u64>& a, const std::vector<u64>& b);   // armed
IMach* make_lowp(); IMach* make_medp(); IMach* make_highp();
IMach* make_b2(); IMach* make_b8(); IMach* make_b10(); IMach* make_b16();
IMach* make_u256(); IMach* make_u1000(); IMach* make_t10(); IMach* make_tmed(); IMach* make_thigh(); IMach* make_dq10(); IMach* make_d10(); IMach* make_dhigh();
#endif
