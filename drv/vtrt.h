// Controlled execution of instrumented code: threads are fibers of one OS
// thread; every atomic step is a scheduling point; memory accesses, blocks and
// synchronisation are written down.  Implemented in vtrt.cpp, which is not
// instrumented itself.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
// Work inside an ignore scope is the harness's own: no events, no preemption, untracked memory.
void vt_ignore(int by);
int vt_self();
void* vt_raw(size_t n);               // untracked memory
// blocks handed to the code under test
void* vt_alloc(size_t n);
void vt_free(void* p);
long vt_live();                       // tracked blocks now alive
long vt_block_of(const void* p);      // its number, -1 if none
size_t vt_block_size(const void* p);
void vt_fail(const char* why);       // ends the execution: it went wrong
// a mark in the history of this thread, printed at its place among the events
void vt_mark(const char* json);
struct vt_shared;                     // what executions tell the explorer, lives in shared memory
struct vt_plan
{
    int mode;          // 0: follow `choice`, then keep running; 1: random
    uint64_t seed;
    int switch_pct;    // mode 1: chance of switching at a point of interest
    int weak_pct;      // chance that a weak compare-exchange fails for no reason
    int pct_depth;     // > 0: priorities with so many changes
    const unsigned char* choice;
    int nchoice;
};
// Runs body(arg) as thread 0; it may call vt_spawn and vt_join.  In the calling process.
void vt_execute(const vt_plan* plan, void (*body)(void*), void* arg);
int vt_spawn(void (*fn)(void*), void* arg);
void vt_join_all();
// after vt_execute: what happened
int vt_npoints();                     // scheduling points with more than one thread able to run
void vt_point(int i, int* chosen, unsigned* enabled, int* could_stay, int* current);
uint64_t vt_digest();                 // of the partial order of shared synchronisation
int vt_hung();
void vt_dump(void (*put)(const char* s, size_t n)); // the event lines
void vt_share_points(unsigned char* table, size_t n, int frozen); // which locations are worth a scheduling point
void vt_note_shared();                // adds this execution's shared locations to the table
extern long vt_steps_limit;
}
struct vt_quiet
{
    vt_quiet() { vt_ignore(1); }
    ~vt_quiet() { vt_ignore(-1); }
};
