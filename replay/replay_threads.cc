// Native threads for replaying a recorded schedule: real threads pass a baton; every scheduling event follows the record.
#include "sym.h"
#include <pthread.h>
#include <semaphore.h>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <time.h>
#include <unistd.h>
#include <vector>
extern std::vector<int> g_sched;
namespace {
struct T { sem_t go; pthread_t id; void (*fn)(void*); void* arg; bool done = false; char *lo = nullptr, *hi = nullptr; };
T* th[16]; int nth = 0, cur = 0; size_t at = 0; bool skip = false;
thread_local int me = 0;
void stackOf(T* t)
{
    pthread_attr_t a; void* p; size_t n;
    pthread_getattr_np(pthread_self(), &a); pthread_attr_getstack(&a, &p, &n); pthread_attr_destroy(&a);
    t->lo = (char*)p; t->hi = (char*)p + n;
}
void init() { if ( nth ) return; th[0] = new T(); sem_init(&th[0]->go, 0, 0); stackOf(th[0]); nth = 1; }
// one recorded event: hand over to the recorded thread; returns when this thread runs again
void event(bool must)
{
    if ( at >= g_sched.size() ) { if ( must ) { printf("DEADLOCK\n"); fflush(stdout); _exit(12); } return; }   // past the record
    int n = g_sched[at++];
    if ( n < 0 || n >= nth ) { printf("DIVERGED schedule\n"); fflush(stdout); _exit(77); }
    if ( n == me ) { if ( must ) skip = true; return; }
    if ( th[n]->done ) { printf("DIVERGED schedule: thread is done\n"); fflush(stdout); _exit(77); }
    skip = true; cur = n;
    sem_post(&th[n]->go);
    if ( th[me]->done ) return;
    while ( sem_wait(&th[me]->go) ) {}
}
void* body(void* p)
{
    me = (int)(long)p; T* t = th[me];
    while ( sem_wait(&t->go) ) {}
    stackOf(t);
    t->fn(t->arg);
    t->done = true;
    event(true);
    for ( ;; ) pause();
}
}
extern "C" {
void sym_spawn(void (*fn)(void*), void* arg)
{
    init();
    T* t = new T(); sem_init(&t->go, 0, 0); t->fn = fn; t->arg = arg;
    th[nth] = t; int k = nth++;
    pthread_create(&t->id, nullptr, body, (void*)(long)k);
}
void sym_join_all()
{
    for ( ;; ) {
        bool all = true;
        for ( int i = 1; i < nth; i++ ) if ( !th[i]->done ) all = false;
        if ( all ) return;
        event(true);
    }
}
void sym_yield() { if ( nth > 1 ) event(true); }
void sym_preempt_bound(int) {}
void sym_fair(int) {}
void sym_schedpt()
{
    if ( nth < 2 ) return;
    if ( skip ) { skip = false; return; }
    int live = 0;
    for ( int i = 0; i < nth; i++ ) if ( !th[i]->done ) live++;
    if ( live < 2 ) return;
    event(false);
    skip = false;
}
void sym_schedmem(void* p)
{
    for ( int i = 0; i < nth; i++ ) if ( (char*)p >= th[i]->lo && (char*)p < th[i]->hi ) return;
    sym_schedpt();
}
void sym_pause() { sym_yield(); }
int sched_yield() { sym_yield(); return 0; }
int nanosleep(const struct timespec*, struct timespec*) { sym_yield(); return 0; }
#include "../models/mutex.inc"
}
