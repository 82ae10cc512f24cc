#include "sched_rt.h"
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <errno.h>
#include <pthread.h>
#include <semaphore.h>
#include <unistd.h>
#include <algorithm>
#include <unordered_map>

extern "C" char __data_start, _end;

namespace
{
    // One thread runs at a time; the others wait for their semaphore.
    constexpr int MAX = 16;
    struct Note { long at; uintptr_t word; bool write; };   // word 0: always of interest
    struct Th { sem_t go; int state = 0; const void* waits = nullptr; uintptr_t lo = 0, hi = 0; long count = 0; sched::Change changes[16]; int nChanges = 0; Note* notes = nullptr; long nNotes = 0, room = 0; };   // 0 ready, 1 waiting, 2 ended
    Th th[MAX];
    int n = 0;
    const sched::Plan* plan = nullptr;
    const std::vector<std::function<void()>>* work = nullptr;
    long since = 0;
    // Nothing of the standard library's containers below while threads run: its functions may be the library's instrumented ones.
    int order[MAX];
    constexpr int BUSY = 256;
    const void* busy[BUSY];         // initialisations that have begun and not ended
    bool isBusy( const void* g ) { for( auto b : busy ) if( b == g ) return true; return false; }
    void setBusy( const void* g ) { for( auto& b : busy ) if( !b ) { b = g; return; } std::abort(); }
    bool endBusy( const void* g ) { for( auto& b : busy ) if( b == g ) { b = nullptr; return true; } return false; }
    bool stuck = false, running = false;
    sem_t all;
    thread_local int me = -1;
    thread_local int quiet = 0;

    int pick( int except )
    {
        for( int k = 0; k < n; ++k ) { const int t = order[k]; if( t != except && th[t].state == 0 ) return t; }
        return -1;
    }
    void over( int t )
    {
        since = 0;
        const int mine = me;
        sem_post( &th[t].go );
        while( sem_wait( &th[mine].go ) && errno == EINTR ) {}
    }
    void point( uintptr_t word = 0, bool write = true )
    {
        if( me < 0 || quiet || !running ) return;
        auto& t = th[me];
        ++t.count; ++since;
        if( plan->log )
        {
            if( t.nNotes == t.room ) { t.room = t.room ? 2 * t.room : 1 << 16; t.notes = (Note*)std::realloc( t.notes, t.room * sizeof( Note ) ); }
            t.notes[t.nNotes++] = { t.count, word, write };
        }
        int to = -1;
        for( int k = 0; k < t.nChanges; ++k ) if( t.changes[k].at == t.count ) to = t.changes[k].to;
        if( to < 0 && since > 60000000 ) to = pick( me );     // spinning for another
        if( to >= 0 && to != me && th[to].state == 0 ) over( to );
    }
    void waitFor( const void* what )
    {
        th[me].state = 1; th[me].waits = what;
        const int t = pick( me );
        if( t < 0 ) { stuck = true; running = false; sem_post( &all ); for( ;; ) pause(); }
        over( t );
    }
    void wake( const void* what ) { for( int t = 0; t < n; ++t ) if( th[t].state == 1 && th[t].waits == what ) { th[t].state = 0; th[t].waits = nullptr; } }
    bool own( const void* a ) { const auto x = reinterpret_cast<uintptr_t>( a ); return x >= th[me].lo && x < th[me].hi; }
    bool isStatic( const void* a ) { auto x = (const char*)a; return x >= &__data_start && x < &_end; }
    void access( const void* a, bool write, bool registry )
    {
        if( me < 0 || quiet || !running || own( a ) ) return;
        if( registry || plan->everything || isStatic( a ) ) point( (uintptr_t)a >> 3, write );
    }
    void* body( void* p )
    {
        const int i = (int)(intptr_t)p;
        pthread_attr_t at;
        pthread_getattr_np( pthread_self(), &at );
        void* base; size_t size;
        pthread_attr_getstack( &at, &base, &size );
        pthread_attr_destroy( &at );
        th[i].lo = (uintptr_t)base; th[i].hi = th[i].lo + size;
        while( sem_wait( &th[i].go ) && errno == EINTR ) {}
        me = i;
        ( *work )[i]();
        me = -1;
        th[i].state = 2;
        const int t = pick( i );
        since = 0;
        if( t >= 0 ) sem_post( &th[t].go );
        else
        {
            for( int k = 0; k < n; ++k ) if( th[k].state == 1 ) stuck = true;
            running = false;
            sem_post( &all );
        }
        return nullptr;
    }
}

namespace sched
{
    void mark() { point(); }
    Quiet::Quiet() { ++quiet; }
    Quiet::~Quiet() { --quiet; }
    Result run( const std::vector<std::function<void()>>& threads, const Plan& p )
    {
        n = (int)threads.size();
        if( n > MAX ) std::abort();
        plan = &p; work = &threads; since = 0; std::fill( busy, busy + BUSY, nullptr ); std::copy( p.order.begin(), p.order.end(), order ); stuck = false; running = true;
        sem_init( &all, 0, 0 );
        std::vector<pthread_t> ids( n );
        for( int i = 0; i < n; ++i ) 
        {
            th[i] = Th{};
            sem_init( &th[i].go, 0, 0 );
            for( auto& c : p.changes ) if( c.from == i && th[i].nChanges < 16 ) th[i].changes[th[i].nChanges++] = c;
        }
        for( int i = 0; i < n; ++i ) if( pthread_create( &ids[i], nullptr, body, (void*)(intptr_t)i ) ) std::abort();
        sem_post( &th[p.order.front()].go );
        while( sem_wait( &all ) && errno == EINTR ) {}
        Result r; r.stuck = stuck;
        for( int i = 0; i < n; ++i ) r.points.push_back( th[i].count );
        if( p.log )
        {
            struct Who { unsigned all = 0, writers = 0; };
            std::unordered_map<uintptr_t, Who> who;
            for( int i = 0; i < n; ++i ) for( long k = 0; k < th[i].nNotes; ++k ) { auto& x = th[i].notes[k]; auto& w = who[x.word]; w.all |= 1u << i; if( x.write ) w.writers |= 1u << i; }
            for( int i = 0; i < n; ++i )
            {
                r.meets.emplace_back();
                for( long k = 0; k < th[i].nNotes; ++k )
                {
                    auto& x = th[i].notes[k];
                    auto& w = who[x.word];
                    if( !x.word || ( w.writers && ( w.all & ( w.all - 1 ) ) ) ) r.meets.back().push_back( x.at );
                }
            }
        }
        if( !stuck ) for( auto& t : ids ) pthread_join( t, nullptr );
        return r;
    }
}

extern "C"
{
    // --- what -fsanitize=thread calls
    void __tsan_init() {}
    void __tsan_func_entry( void* ) {}
    void __tsan_func_exit() {}
    void __tsan_vptr_update( void**, void* ) {}
    void __tsan_vptr_read( void** ) {}
    void __tsan_ignore_thread_begin() {}
    void __tsan_ignore_thread_end() {}
#define RW( N ) \
    void __tsan_read##N( void* a ) { access( a, false, false ); } \
    void __tsan_write##N( void* a ) { access( a, true, false ); } \
    void __tsan_unaligned_read##N( void* a ) { access( a, false, false ); } \
    void __tsan_unaligned_write##N( void* a ) { access( a, true, false ); } \
    void __tsan_volatile_read##N( void* a ) { access( a, false, false ); } \
    void __tsan_volatile_write##N( void* a ) { access( a, true, false ); } \
    void __tsan_unaligned_volatile_read##N( void* a ) { access( a, false, false ); } \
    void __tsan_unaligned_volatile_write##N( void* a ) { access( a, true, false ); } \
    void mxr_read##N( void* a ) { access( a, false, true ); } \
    void mxr_write##N( void* a ) { access( a, true, true ); } \
    void mxr_unaligned_read##N( void* a ) { access( a, false, true ); } \
    void mxr_unaligned_write##N( void* a ) { access( a, true, true ); }
    RW( 1 ) RW( 2 ) RW( 4 ) RW( 8 ) RW( 16 )
    void __tsan_read_range( void* a, unsigned long ) { access( a, false, false ); }
    void __tsan_write_range( void* a, unsigned long ) { access( a, true, false ); }
    void mxr_read_range( void* a, unsigned long ) { access( a, false, true ); }
    void mxr_write_range( void* a, unsigned long ) { access( a, true, true ); }
#define AT( N, T ) \
    T __tsan_atomic##N##_load( const volatile T* a, int ) { access( (const void*)a, true, true ); return __atomic_load_n( a, __ATOMIC_SEQ_CST ); } \
    void __tsan_atomic##N##_store( volatile T* a, T v, int ) { access( (const void*)a, true, true ); __atomic_store_n( a, v, __ATOMIC_SEQ_CST ); } \
    T __tsan_atomic##N##_exchange( volatile T* a, T v, int ) { access( (const void*)a, true, true ); return __atomic_exchange_n( a, v, __ATOMIC_SEQ_CST ); } \
    T __tsan_atomic##N##_fetch_add( volatile T* a, T v, int ) { access( (const void*)a, false, false ); return __atomic_fetch_add( a, v, __ATOMIC_SEQ_CST ); } \
    T __tsan_atomic##N##_fetch_sub( volatile T* a, T v, int ) { access( (const void*)a, false, false ); return __atomic_fetch_sub( a, v, __ATOMIC_SEQ_CST ); } \
    T __tsan_atomic##N##_fetch_and( volatile T* a, T v, int ) { access( (const void*)a, false, false ); return __atomic_fetch_and( a, v, __ATOMIC_SEQ_CST ); } \
    T __tsan_atomic##N##_fetch_or( volatile T* a, T v, int ) { access( (const void*)a, false, false ); return __atomic_fetch_or( a, v, __ATOMIC_SEQ_CST ); } \
    T __tsan_atomic##N##_fetch_xor( volatile T* a, T v, int ) { access( (const void*)a, false, false ); return __atomic_fetch_xor( a, v, __ATOMIC_SEQ_CST ); } \
    T __tsan_atomic##N##_fetch_nand( volatile T* a, T v, int ) { access( (const void*)a, false, false ); return __atomic_fetch_nand( a, v, __ATOMIC_SEQ_CST ); } \
    int __tsan_atomic##N##_compare_exchange_strong( volatile T* a, T* c, T v, int, int ) { access( (const void*)a, true, true ); return __atomic_compare_exchange_n( a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST ); } \
    int __tsan_atomic##N##_compare_exchange_weak( volatile T* a, T* c, T v, int, int ) { access( (const void*)a, true, true ); return __atomic_compare_exchange_n( a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST ); } \
    T __tsan_atomic##N##_compare_exchange_val( volatile T* a, T c, T v, int, int ) { access( (const void*)a, true, true ); __atomic_compare_exchange_n( a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST ); return c; }
    AT( 8, uint8_t ) AT( 16, uint16_t ) AT( 32, uint32_t ) AT( 64, uint64_t )
    void __tsan_atomic_thread_fence( int ) { __atomic_thread_fence( __ATOMIC_SEQ_CST ); }
    void __tsan_atomic_signal_fence( int ) {}

    // --- locks (linked with --wrap)
    int __real_pthread_mutex_lock( pthread_mutex_t* );
    int __real_pthread_mutex_trylock( pthread_mutex_t* );
    int __real_pthread_mutex_unlock( pthread_mutex_t* );
    int __real_pthread_rwlock_rdlock( pthread_rwlock_t* );
    int __real_pthread_rwlock_wrlock( pthread_rwlock_t* );
    int __real_pthread_rwlock_unlock( pthread_rwlock_t* );
    int __real_pthread_once( pthread_once_t*, void ( * )() );
    int __real___cxa_guard_acquire( uint64_t* );
    void __real___cxa_guard_release( uint64_t* );
    void __real___cxa_guard_abort( uint64_t* );
    int __wrap_pthread_mutex_lock( pthread_mutex_t* m )
    {
        if( me < 0 || !running ) return __real_pthread_mutex_lock( m );
        point();
        for( ;; )
        {
            const int r = __real_pthread_mutex_trylock( m );
            if( r != EBUSY ) { point(); return r; }
            waitFor( m );
        }
    }
    int __wrap_pthread_mutex_trylock( pthread_mutex_t* m ) { point(); const int r = __real_pthread_mutex_trylock( m ); point(); return r; }
    int __wrap_pthread_mutex_unlock( pthread_mutex_t* m )
    {
        const int r = __real_pthread_mutex_unlock( m );
        if( me >= 0 ) { wake( m ); point(); }
        return r;
    }
    int __wrap_pthread_rwlock_rdlock( pthread_rwlock_t* m )
    {
        if( me < 0 || !running ) return __real_pthread_rwlock_rdlock( m );
        point();
        for( ;; )
        {
            const int r = pthread_rwlock_tryrdlock( m );
            if( r != EBUSY ) { point(); return r; }
            waitFor( m );
        }
    }
    int __wrap_pthread_rwlock_wrlock( pthread_rwlock_t* m )
    {
        if( me < 0 || !running ) return __real_pthread_rwlock_wrlock( m );
        point();
        for( ;; )
        {
            const int r = pthread_rwlock_trywrlock( m );
            if( r != EBUSY ) { point(); return r; }
            waitFor( m );
        }
    }
    int __wrap_pthread_rwlock_unlock( pthread_rwlock_t* m )
    {
        const int r = __real_pthread_rwlock_unlock( m );
        if( me >= 0 ) { wake( m ); point(); }
        return r;
    }
    // what is initialised once: whoever comes second waits for the first
    int __wrap_pthread_once( pthread_once_t* o, void ( *f )() )
    {
        if( me < 0 || !running ) return __real_pthread_once( o, f );
        while( isBusy( o ) ) waitFor( o );
        setBusy( o );
        struct Out { void* o; ~Out() { endBusy( o ); wake( o ); } } out{ o };
        return __real_pthread_once( o, f );
    }
    int __wrap___cxa_guard_acquire( uint64_t* g )
    {
        if( me < 0 || !running ) return __real___cxa_guard_acquire( g );
        for( ;; )
        {
            if( *(volatile char*)g ) return 0;
            if( !isBusy( g ) ) break;
            waitFor( g );
        }
        setBusy( g );
        return 1;
    }
    void __wrap___cxa_guard_release( uint64_t* g )
    {
        if( !endBusy( g ) ) { __real___cxa_guard_release( g ); return; }
        *(volatile char*)g = 1;
        wake( g );
        point();
    }
    void __wrap___cxa_guard_abort( uint64_t* g )
    {
        if( !endBusy( g ) ) { __real___cxa_guard_abort( g ); return; }
        wake( g );
    }
}
