// How many elements fit.  KIND 0: queue, 1: stack.  CFG 0: node-based, 1: fixed_sized<true>, 2: capacity<CAP>.
#include "lf.h"
#include <boost/lockfree/queue.hpp>
#include <boost/lockfree/stack.hpp>
#ifndef CAP
#    define CAP 3
#endif
namespace lf = boost::lockfree;
#if CFG == 0
#    define OPTIONS
#elif CFG == 1
#    define OPTIONS , lf::fixed_sized< true >
#else
#    define OPTIONS , lf::capacity< CAP >
#endif
#if KIND == 0
typedef lf::queue< int OPTIONS > C;
#else
typedef lf::stack< int OPTIONS > C;
#endif
alignas( C ) static char mem[ sizeof( C ) ];
static C* c;
static const int MOST = 10;
// takes everything out
static int drain()
{
    int n = 0, v;
    for ( int i = 0; i < MOST; i++ ) if ( c->pop( v ) ) n++;
    return n;
}
// fills the container with bounded pushes: exactly `room` of them succeed, and none allocates
static void fill_exactly( int room, unsigned how )
{
    uint64_t live = __lf_heap_live();
    int      n    = 0;
    for ( int i = 0; i < MOST; i++ ) {
        bool ok = CFG != 0 && how == 1 ? c->push( i ) : CFG != 0 && how == 2 ? c->unsynchronized_push( i ) : c->bounded_push( i );
        if ( ok ) n++;
        LF_ASSERT( ok == ( i < room ), "exactly as many elements fit as were asked for" );
    }
    LF_ASSERT( n == room, "exactly as many elements fit as were asked for" );
    LF_ASSERT( __lf_heap_live() == live, "a bounded operation does not allocate memory" );
}
static void make( int n, bool with_alloc )
{
#if CFG == 2
    (void)n;
    if ( with_alloc ) c = new ( mem ) C( C::allocator() ); else c = new ( mem ) C;
#else
    if ( with_alloc ) c = new ( mem ) C( n, C::allocator() ); else c = new ( mem ) C( n );
#endif
}
static void check( int n, bool with_alloc )
{
    make( n, with_alloc );
    int room = CFG == 2 ? CAP : n;
#if CFG == 0
    unsigned r = choose( 0, 3, "reserve" );
    for ( unsigned k = 1; k <= 3; k++ ) if ( r == k ) { if ( with_alloc ) c->reserve( k ); else c->reserve_unsafe( k ); }
    if ( choose( 0, 1, "reserve again" ) ) { c->reserve( 1 ); r++; }
    room += r;
#endif
    LF_ASSERT( c->empty(), "a new container is empty" );
    fill_exactly( room, choose( 0, 2, "how" ) );
    if ( room > 0 ) LF_ASSERT( !c->empty(), "not empty" );
    // part of it out and in again, then once more from empty
    int k = choose( 0, 3, "popped" ), got = 0, back = 0, v;
    for ( int i = 0; i < 3; i++ ) if ( i < k ) if ( choose( 0, 1, "pop" ) ? c->pop( v ) : c->unsynchronized_pop( v ) ) got++;
    for ( int i = 0; i < 4; i++ ) if ( c->bounded_push( 7 ) ) back++;
    LF_ASSERT( got == back, "as many elements fit in again as were taken out" );
    LF_ASSERT( drain() == room, "everything comes out again" );
    LF_ASSERT( c->empty(), "the drained container is empty" );
    fill_exactly( room, 0 );
    c->~C();
    LF_ASSERT( __lf_heap_live() == 0, "the destructor releases all memory" );
}
#if CFG == 2
extern "C" void seq_CAP_fill() { if ( choose( 0, 1, "alloc" ) ) check( 0, true ); else check( 0, false ); }
#else
extern "C" void seq_CAP_fill0() { check( 0, false ); }
extern "C" void seq_CAP_fill1() { check( 1, false ); }
extern "C" void seq_CAP_fill2() { check( 2, true ); }
extern "C" void seq_CAP_fill3() { check( 3, false ); }
extern "C" void seq_CAP_fill4() { check( 4, true ); }
#endif
#if KIND == 1
// a range is cut short exactly where the space ends
extern "C" void seq_CAP_range()
{
    make( CAP, false );
    int in[ 5 ] = { 1, 2, 3, 4, 5 };
    int pre = choose( 0, CAP, "elements present" ), n = choose( 0, 5, "range length" );
    for ( int i = 0; i < CAP; i++ ) if ( i < pre ) c->push( 9 );
    int how  = choose( 0, CFG == 0 ? 0 : 2, "how" );
    int put  = (int)( ( how == 0 ? c->bounded_push( in, in + n ) : how == 1 ? c->push( in, in + n ) : c->unsynchronized_push( in, in + n ) ) - in );
    int room = CAP - pre;
    LF_ASSERT( put == ( n < room ? n : room ), "a range is cut short exactly where the space ends" );
    LF_ASSERT( drain() == pre + put, "everything comes out again" );
    fill_exactly( CAP, 0 );
}
#endif
// concurrent use: whatever the threads did, afterwards exactly as many elements fit as before (plus what was reserved), and a
// bounded push only fails when the space may have been used up
enum K { BPUSH, PUSH, POP, RESERVE, CALL, TAKE, TAKEREV, RANGE };
static int prog[ 3 ][ 5 ], nprog[ 3 ], nthreads, room0, maxheld, in2[ 2 ] = { 1, 2 };
static int failed[ 3 ], reserved[ 3 ];
static uint64_t live0;
template < typename... O > static void thread( O... o ) { int k[] = { (int)o... }; for ( int x : k ) prog[ nthreads ][ nprog[ nthreads ]++ ] = x; nthreads++; }
struct Eat { void operator()( int ) const {} };
static void run( int t )
{
    int v;
    for ( int i = 0; i < nprog[ t ]; i++ )
        switch ( prog[ t ][ i ] ) {
        case PUSH: if ( !c->push( 5 ) ) failed[ t ]++; break;
        case BPUSH: if ( !c->bounded_push( 5 ) ) failed[ t ]++; break;
        case POP: c->pop( v ); break;
        case CALL: c->consume_all( Eat() ); break;
#if CFG == 0
        case RESERVE: c->reserve( 1 ); reserved[ t ]++; break;
#endif
#if KIND == 1
        case TAKE: c->consume_all_atomic( Eat() ); break;
        case TAKEREV: c->consume_all_atomic_reversed( Eat() ); break;
        case RANGE: failed[ t ] += (int)( in2 + 2 - c->bounded_push( in2, in2 + 2 ) ); break;
#endif
        }
}
static void start( int n, int held, int fill )
{
    make( n, false );
    room0   = CFG == 2 ? CAP : n;
    maxheld = held;
    for ( int i = 0; i < fill; i++ ) c->push( 8 );
    live0 = __lf_heap_live();
}
static void finish()
{
    int fails = 0, res = 0;
    for ( int t = 0; t < nthreads; t++ ) { fails += failed[ t ]; res += reserved[ t ]; }
    LF_ASSERT( fails == 0 || maxheld > room0, "a push does not fail while there must be space" );
    LF_ASSERT( __lf_heap_live() == live0 + ( CFG == 0 ? res : 0 ), "no node is allocated but those reserved" );
    drain();
    fill_exactly( room0 + res, 0 );
    c->~C();
    LF_ASSERT( __lf_heap_live() == 0, "the destructor releases all memory" );
}
#define SCEN_COMMON( name, n, held, fill, ... ) \
    extern "C" void conc_##name##__init() { start( n, held, fill ); __VA_ARGS__ } \
    extern "C" void conc_##name##__final() { finish(); }
#define SCEN2( name, n, held, fill, ... ) SCEN_COMMON( name, n, held, fill, __VA_ARGS__ ) extern "C" void conc_##name##__t0() { run( 0 ); } extern "C" void conc_##name##__t1() { run( 1 ); }
#define SCEN3( name, n, held, fill, ... ) SCEN2( name, n, held, fill, __VA_ARGS__ ) extern "C" void conc_##name##__t2() { run( 2 ); }
// held: the number of nodes that may be in use at the same time
SCEN2( CC_b_b, 2, 3, 1, thread( BPUSH ); thread( BPUSH ); )
SCEN2( CC_b_b_fit, 3, 3, 1, thread( BPUSH ); thread( BPUSH ); )
SCEN2( CC_bb_p, 3, 3, 1, thread( BPUSH, BPUSH ); thread( POP ); )
SCEN2( CC_b_pb, 2, 3, 1, thread( BPUSH ); thread( POP, BPUSH ); )
SCEN2( CC_bp_bp, 3, 2, 0, thread( BPUSH, POP ); thread( BPUSH, POP ); )
SCEN2( CC_p_pb, 2, 3, 2, thread( POP ); thread( POP, BPUSH ); )
SCEN2( CC_p_ppb, 3, 3, 2, thread( POP ); thread( POP, POP, BPUSH ); )
SCEN2( CC_call_b, 3, 3, 2, thread( CALL ); thread( BPUSH ); )
SCEN3( CC_b_b_b, 2, 3, 0, thread( BPUSH ); thread( BPUSH ); thread( BPUSH ); )
SCEN3( CC_b_p_b, 2, 3, 1, thread( BPUSH ); thread( POP ); thread( BPUSH ); )
#if CAP >= 4
SCEN2( CC_retry_b_bbb, 4, 4, 0, thread( BPUSH ); thread( BPUSH, BPUSH, BPUSH ); )
SCEN2( CC_retry_b_pbp, 4, 4, 3, thread( BPUSH ); thread( POP, BPUSH, POP ); )
#endif
#if CFG == 0
SCEN2( CC_r_b, 1, 2, 1, thread( RESERVE ); thread( BPUSH ); )
SCEN2( CC_r_r, 1, 1, 1, thread( RESERVE ); thread( RESERVE ); )
SCEN2( CC_rb_p, 1, 2, 1, thread( RESERVE, BPUSH ); thread( POP ); )
SCEN2( CC_rr_bp, 2, 2, 1, thread( RESERVE, RESERVE ); thread( BPUSH, POP ); )
SCEN3( CC_r_b_p, 1, 2, 1, thread( RESERVE ); thread( BPUSH ); thread( POP ); )
#endif
#if KIND == 1
SCEN2( CC_range_b, 3, 3, 0, thread( RANGE ); thread( BPUSH ); )
SCEN2( CC_range_range, 3, 4, 0, thread( RANGE ); thread( RANGE ); )
SCEN2( CC_range_p, 2, 3, 1, thread( RANGE ); thread( POP ); )
SCEN2( CC_take_b, 3, 3, 2, thread( TAKE ); thread( BPUSH ); )
SCEN2( CC_take_p, 2, 2, 2, thread( TAKE ); thread( POP ); )
SCEN2( CC_rev_b, 3, 3, 2, thread( TAKEREV ); thread( BPUSH ); )
SCEN2( CC_rev_p, 2, 2, 2, thread( TAKEREV ); thread( POP ); )
#endif
