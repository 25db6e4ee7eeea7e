// The node pool under concurrent allocation and release.  CFG 0: growing pool, 1: array sized at run time, 2: array sized at
// compile time.  BLOCKS blocks at the start.  Every thread stamps the blocks it owns; nobody else may own a block meanwhile.
#include "lf.h"
#include <boost/lockfree/queue.hpp>
#include <boost/lockfree/stack.hpp>
#ifndef CFG
#    define CFG 0
#endif
#ifndef BLOCKS
#    define BLOCKS 2
#endif
enum { N = BLOCKS };
namespace d = boost::lockfree::detail;
struct dummy {
    std::size_t  padding[ 2 ];
    unsigned     owner;
    dummy() : owner( 0 ) {}
    dummy( int o ) : owner( o ) {}
    ~dummy() {}
};
#if CFG == 0
typedef d::freelist_stack< dummy > Pool;
#elif CFG == 1
typedef d::fixed_size_freelist< dummy > Pool;
#else
typedef d::fixed_size_freelist< dummy, d::compiletime_sized_freelist_storage< dummy, N > > Pool;
#endif
alignas( Pool ) static char mem[ sizeof( Pool ) ];
static Pool* p;
enum K { ALLOC, BALLOC, FREE0, FREE1, RESERVE };
static int  prog[ 3 ][ 6 ], nprog[ 3 ], nthreads, maxheld, reserved;
static dummy* held[ 3 ][ 3 ];
static int  nheld[ 3 ], failed[ 3 ], failedUnder[ 3 ];      // owned blocks by thread; failed allocations
template < typename... O > static void thread( O... o ) { int k[] = { (int)o... }; for ( int x : k ) prog[ nthreads ][ nprog[ nthreads ]++ ] = x; nthreads++; }
static void make( int nInit ) { p = new ( mem ) Pool( std::allocator< int >(), nInit ); }

static void run( int t )
{
    unsigned id = t + 1;
    for ( int i = 0; i < nprog[ t ]; i++ ) {
        switch ( prog[ t ][ i ] ) {
        case ALLOC: case BALLOC: {
            dummy* x = prog[ t ][ i ] == ALLOC ? p->construct< true, false >( id ) : p->construct< true, true >( id );
            if ( x ) held[ t ][ nheld[ t ]++ ] = x;
            else failed[ t ]++;
            break;
        }
#if CFG == 0
        case RESERVE: p->reserve< true >( 1 ); break;
#endif
        default:                                // release the oldest (0) or the newest (1) block
            if ( nheld[ t ] > 0 ) {
                dummy* x;
                if ( prog[ t ][ i ] == FREE0 ) { x = held[ t ][ 0 ]; held[ t ][ 0 ] = held[ t ][ 1 ]; held[ t ][ 1 ] = held[ t ][ 2 ]; nheld[ t ]--; }
                else x = held[ t ][ --nheld[ t ] ];
                LF_ASSERT( x->owner == id, "a block belongs to one owner at a time" );
                x->owner = 0;
                p->destruct< true >( x );
            }
        }
    }
}
static int init_blocks;
static void finish()
{
    // blocks still owned are intact and distinct
    dummy* all[ 16 ];
    int    n = 0, fails = 0;
    for ( int t = 0; t < nthreads; t++ ) {
        fails += failed[ t ];
        for ( int k = 0; k < 3; k++ )
            if ( k < nheld[ t ] ) {
                LF_ASSERT( held[ t ][ k ]->owner == unsigned( t + 1 ), "an owned block is not touched by others" );
                all[ n++ ] = held[ t ][ k ];
            }
    }
    // a bounded allocation may only fail when all blocks may have been in use
    LF_ASSERT( fails == 0 || maxheld > init_blocks, "an allocation does not fail while there must be a free block" );
    // what is left in the pool
    int owned = n;
    for ( int k = 0; k < 8; k++ ) {
        dummy* x = p->construct< true, true >( 9 );
        if ( !x ) break;
        all[ n++ ] = x;
    }
    for ( int i = 0; i < 12; i++ )
        for ( int j = 0; j < i; j++ )
            if ( i < n ) LF_ASSERT( all[ i ] != all[ j ], "no block is handed out twice" );
#if CFG == 0
    LF_ASSERT( (int)__lf_heap_live() == n, "no block is lost" );
#else
    LF_ASSERT( n == N, "no block is lost, none invented" );
#endif
    for ( int i = 0; i < 12; i++ )
        if ( i < n ) p->destruct< true >( all[ i ] );
    p->~Pool();
    LF_ASSERT( __lf_heap_live() == 0, "the pool releases all its memory" );
}
static void start( int n ) { make( n ); init_blocks = n; }
#define SCEN_COMMON( name, m, ... ) \
    extern "C" void conc_##name##__init() { start( CFG == 2 ? N : N ); maxheld = m; __VA_ARGS__ } \
    extern "C" void conc_##name##__final() { finish(); }
#define SCEN2( name, m, ... ) SCEN_COMMON( name, m, __VA_ARGS__ ) extern "C" void conc_##name##__t0() { run( 0 ); } extern "C" void conc_##name##__t1() { run( 1 ); }
#define SCEN3( name, m, ... ) SCEN2( name, m, __VA_ARGS__ ) extern "C" void conc_##name##__t2() { run( 2 ); }
// m: the number of blocks that may be in use at the same time
SCEN2( FL_af_af, 2, thread( ALLOC, FREE0 ); thread( ALLOC, FREE0 ); )
SCEN2( FL_bf_bf, 2, thread( BALLOC, FREE0 ); thread( BALLOC, FREE0 ); )
SCEN2( FL_a_a, 2, thread( BALLOC ); thread( BALLOC ); )
SCEN2( FL_aa_aa, 4, thread( ALLOC, ALLOC ); thread( ALLOC, ALLOC ); )
SCEN2( FL_bb_bb, 4, thread( BALLOC, BALLOC ); thread( BALLOC, BALLOC ); )
SCEN2( FL_b_bbf, 3, thread( BALLOC ); thread( BALLOC, BALLOC, FREE0 ); )
SCEN2( FL_aba, 3, thread( BALLOC ); thread( BALLOC, BALLOC, FREE0, FREE0 ); )
SCEN2( FL_aba1, 3, thread( BALLOC ); thread( BALLOC, BALLOC, FREE1, FREE1 ); )
SCEN2( FL_aba2, 3, thread( BALLOC, FREE0 ); thread( BALLOC, BALLOC, FREE0, BALLOC ); )
SCEN2( FL_fb_fb, 2, thread( BALLOC, FREE0, BALLOC ); thread( BALLOC, FREE0, BALLOC ); )
SCEN2( FL_bbff_b, 3, thread( ALLOC, ALLOC, FREE1, FREE0 ); thread( ALLOC ); )
#if CFG == 0
SCEN2( FL_reserve, 2, thread( RESERVE ); thread( BALLOC, FREE0 ); )
SCEN2( FL_reserve2, 2, thread( RESERVE, BALLOC ); thread( RESERVE, BALLOC ); )
#endif
SCEN3( FL_3, 3, thread( BALLOC, FREE0 ); thread( BALLOC, FREE0 ); thread( BALLOC, FREE0 ); )
SCEN3( FL_3a, 4, thread( ALLOC ); thread( BALLOC, BALLOC, FREE0 ); thread( BALLOC ); )
#if BLOCKS >= 4      // an operation that has to retry several times
SCEN2( FL_retry_b_bbb, 4, thread( BALLOC ); thread( BALLOC, BALLOC, BALLOC ); )
SCEN2( FL_retry_f_bbb, 4, thread( BALLOC, FREE0 ); thread( BALLOC, BALLOC, BALLOC ); )
#endif
// the same pool used without synchronisation by one thread: arbitrary sequences of allocations and releases
extern "C" void seq_FL_seq()
{
    start( N );
    dummy* h[ 6 ]; int nh = 0, grown = 0;
    for ( int i = 0; i < 5; i++ ) {
        unsigned op = choose( 0, 5, "op" );
        int      before = (int)__lf_heap_live();
        if ( op < 4 ) {
            dummy* x = op == 0 ? p->construct< true, true >( i + 1 ) : op == 1 ? p->construct< false, true >( i + 1 ) : op == 2 ? p->construct< true, false >( i + 1 ) : p->construct< false, false >( i + 1 );
            bool grow = CFG == 0 && op >= 2 && nh >= N + grown;
            LF_ASSERT( ( x != 0 ) == ( nh < N + grown || grow ), "an allocation succeeds exactly when there is a free block or the pool may grow" );
            LF_ASSERT( (int)__lf_heap_live() == before + grow, "the pool grows only when it is exhausted and may grow" );
            grown += grow;
            if ( x ) {
                LF_ASSERT( x->owner == unsigned( i + 1 ), "constructed" );
                for ( int k = 0; k < 6; k++ ) if ( k < nh ) LF_ASSERT( h[ k ] != x, "no block is handed out twice" );
                for ( int k = 0; k < 6; k++ ) if ( k == nh ) h[ k ] = x;
                nh++;
            }
        } else if ( nh > 0 ) {
            unsigned v = choose( 0, 5, "victim" );
            LF_ASSUME( (int)v < nh );
            dummy* x = 0;
            for ( int k = 0; k < 6; k++ ) if ( k == (int)v ) x = h[ k ];
            for ( int k = 0; k < 5; k++ ) if ( k >= (int)v ) h[ k ] = h[ k + 1 ];
            nh--;
            if ( op == 4 ) p->destruct< true >( x ); else p->destruct< false >( x );
        }
    }
    LF_COVER( nh == 5 || ( CFG != 0 && nh == N ), "many blocks in use" );
    for ( int k = 0; k < 6; k++ ) if ( k < nh ) p->destruct< false >( h[ k ] );
    int n = 0;
    for ( int k = 0; k < N + 6; k++ ) if ( p->construct< false, true >( 1 ) ) n++;
    LF_ASSERT( n == N + grown, "all blocks are available in the end" );
    (void)n;
#if CFG == 0
    LF_ASSERT( (int)__lf_heap_live() == N + grown, "no block is lost" );
#endif
}
