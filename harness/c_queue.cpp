// queue: concurrent scenarios.  CFG 0: node-based, 1: fixed_sized<true>, 2: capacity<3>
#include "hist.h"
#ifndef PROGRESS
#    define PROGRESS 0
#endif
#include <boost/lockfree/queue.hpp>
using namespace hist;
#ifndef QCAP
#    define QCAP ( PROGRESS ? 4 : 3 )
#endif
#ifndef CFG
#    define CFG 0
#endif
#if CFG == 0
typedef boost::lockfree::queue< int > Q;
#elif CFG == 1
typedef boost::lockfree::queue< int, boost::lockfree::fixed_sized< true > > Q;
#else
typedef boost::lockfree::queue< int, boost::lockfree::capacity< QCAP > > Q;
#endif
alignas( Q ) static char mem[ sizeof( Q ) ];
static Q*   q;
static bool failpush;
#if CFG == 2
static void make( int ) { q = new ( mem ) Q; }
#else
static void make( int n ) { q = new ( mem ) Q( n ); }
#endif
static void fill( int v ) { q->push( v ); ini.v[ ini.e++ ] = v; }
// moves the nodes and tags away from their initial positions
static void cycle( int n ) { for ( int i = 0; i < n; i++ ) { int v; q->push( 99 ); q->pop( v ); } }

static void hist_run( int t )
{
    for ( int i = 0; i < nops[ t ]; i++ ) {
        Op& o = ops[ t ][ i ];
        __lf_mark( idof( t, i ) );
        switch ( o.kind ) {
        case PUSH: o.ok = q->push( o.arg[ 0 ] ); break;
        case BPUSH: o.ok = q->bounded_push( o.arg[ 0 ] ); break;
        case POP: { int v = -1; o.ok = q->pop( v ); o.val[ 0 ] = v; break; }
        case C1: { Collect c( o ); o.ok = q->consume_one( c ); break; }
        case C1C: { int n = 0; o.ok = q->consume_one( CollectC( o, &n ) ); break; }
        case CALLF: { Collect c( o ); o.ok = (int)q->consume_all( c ); break; }
        case CALL: { int n = 0; o.ok = q->consume_all( CollectC( o, &n ) ); break; }
        case EMPTY: o.ok = q->empty(); break;
        default: break;
        }
        __lf_mark( idof( t, i ) + 1 );
    }
}
static void hist_finish()
{
    int v;
#if PROGRESS        // a thread may have stopped for ever in the middle of an operation
    for ( int i = 0; i < 6; i++ ) if ( !q->pop( v ) ) break;
    v = 0;
    bool ok = q->push( 77 );
    ok &= q->pop( v );
    LF_ASSERT( q->is_lock_free(), "lock-free" );
    LF_ASSERT( ok && v == 77, "the queue remains usable" );
    return;
#endif
    while ( ndrained < 8 && q->pop( v ) )
        drained[ ndrained++ ] = v;
    LF_ASSERT( linearizable( false, REALTIME, failpush ), "the history of the queue is linearizable (FIFO)" );
    q->~Q();
#if CFG == 0 || CFG == 1
    LF_ASSERT( __lf_heap_live() == 0, "the destructor releases all memory" );
#endif
}

SCEN2( QL_push_pop, { make( 2 ); fill( 1 ); thread( push( 2 ) ); thread( pop() ); } )
SCEN2( QL_push_pop_empty, { make( 2 ); thread( push( 2 ) ); thread( pop() ); } )
SCEN2( QL_push_push, { make( 3 ); thread( push( 2 ) ); thread( push( 3 ) ); } )
SCEN2( QL_pop_pop, { make( 2 ); fill( 1 ); fill( 2 ); thread( pop() ); thread( pop() ); } )
SCEN2( QL_pop_pop1, { make( 2 ); fill( 1 ); thread( pop() ); thread( pop() ); } )
SCEN2( QL_push_poppop, { make( 3 ); thread( push( 2 ) ); thread( pop(), pop() ); } )
SCEN2( QL_pop_pushpush, { make( 3 ); fill( 1 ); thread( pop() ); thread( push( 2 ), push( 3 ) ); } )
SCEN2( QL_push_poppush, { make( 3 ); fill( 1 ); thread( push( 2 ) ); thread( pop(), push( 3 ) ); } )
SCEN2( QL_pop_poppush, { make( 3 ); fill( 1 ); thread( pop() ); thread( pop(), push( 3 ) ); } )
SCEN2( QL_bpush_bpush, { make( 3 ); fill( 1 ); thread( bpush( 2 ) ); thread( bpush( 3 ) ); } )
SCEN2( QL_bpush_pop, { make( 2 ); fill( 1 ); thread( bpush( 2 ) ); thread( pop(), pop() ); } )
SCEN2( QL_c1_pop, { make( 2 ); fill( 1 ); fill( 2 ); thread( c1() ); thread( pop(), c1c() ); } )
SCEN2( QL_call_push, { make( 3 ); fill( 1 ); thread( call() ); thread( push( 2 ) ); } )
SCEN2( QL_call_pop, { make( 3 ); fill( 1 ); fill( 2 ); thread( callf() ); thread( pop() ); } )
SCEN2( QL_pushpop_pushpop, { make( 3 ); thread( push( 1 ), pop() ); thread( push( 2 ), pop() ); } )
// a stalled pop or push against nodes that are removed, recycled and put back (ABA)
SCEN2( QL_pop_aba, { make( 3 ); fill( 1 ); fill( 2 ); thread( pop() ); thread( pop(), pop(), push( 3 ), push( 4 ) ); } )
SCEN2( QL_pop_aba2, { make( 3 ); fill( 1 ); fill( 2 ); thread( pop() ); thread( pop(), push( 3 ), pop(), pop() ); } )
SCEN2( QL_push_aba, { make( 3 ); thread( push( 1 ) ); thread( push( 2 ), pop(), push( 3 ), pop() ); } )
SCEN3( QL_push_push_pop, { make( 3 ); thread( push( 1 ) ); thread( push( 2 ) ); thread( pop() ); } )
SCEN3( QL_push_pop_pop, { make( 3 ); fill( 1 ); thread( push( 2 ) ); thread( pop() ); thread( pop() ); } )
SCEN3( QL_pop_pop_pop, { make( 3 ); fill( 1 ); fill( 2 ); thread( pop() ); thread( pop() ); thread( pop() ); } )
// the tail lags behind (a push stalled between linking and swinging the tail) while the head catches up with it
SCEN2( QL_lag, { make( 3 ); thread( pop(), push( 3 ) ); thread( push( 1 ), pop(), push( 2 ) ); } )
SCEN2( QL_lag2, { make( 3 ); thread( pop(), pop() ); thread( push( 1 ), pop(), push( 2 ) ); } )
SCEN2( QL_lag3, { make( 3 ); fill( 1 ); thread( pop(), push( 3 ) ); thread( pop(), push( 2 ), pop() ); } )
SCEN2( QL_push_aba2, { make( 3 ); thread( push( 1 ), pop() ); thread( push( 2 ), pop(), push( 3 ) ); } )
SCEN3( QL_lag_3, { make( 3 ); thread( pop() ); thread( push( 1 ), pop() ); thread( push( 2 ) ); } )
SCEN3( QL_aba_3, { make( 4 ); fill( 1 ); thread( push( 2 ) ); thread( pop(), pop() ); thread( push( 3 ), pop() ); } )
SCEN3( QL_mix_3, { make( 4 ); thread( push( 1 ), pop() ); thread( push( 2 ), pop() ); thread( pop() ); } )
#ifdef RETRY     // an operation that has to retry several times
SCEN2( QL_retry_push, { make( 4 ); thread( push( 1 ) ); thread( push( 2 ), push( 3 ), push( 4 ) ); } )
SCEN2( QL_retry_pop, { make( 4 ); fill( 1 ); fill( 2 ); fill( 3 ); fill( 4 ); thread( pop() ); thread( pop(), pop(), pop() ); } )
#endif
#if PROGRESS        // operations against one that stops somewhere; both orders
SCEN2( QP_push_push, { make( 4 ); thread( push( 1 ) ); thread( push( 2 ) ); } )
SCEN2( QP_push_pop, { make( 4 ); fill( 1 ); thread( push( 2 ) ); thread( pop(), pop() ); } )
SCEN2( QP_push_pop0, { make( 4 ); thread( push( 2 ) ); thread( pop() ); } )
SCEN2( QP_pop_push, { make( 4 ); fill( 1 ); thread( pop() ); thread( push( 2 ), push( 3 ) ); } )
SCEN2( QP_pop_pop, { make( 4 ); fill( 1 ); fill( 2 ); thread( pop() ); thread( pop(), pop() ); } )
SCEN2( QP_c1_bpush, { make( 4 ); fill( 1 ); thread( c1() ); thread( bpush( 2 ), c1c() ); } )
SCEN2( QP_call_push, { make( 4 ); fill( 1 ); thread( push( 2 ) ); thread( call() ); } )
SCEN2( QP_pushpop_pushpop, { make( 4 ); thread( push( 1 ), pop() ); thread( push( 2 ), pop() ); } )
SCEN3( QP_3, { make( 4 ); fill( 1 ); thread( push( 2 ) ); thread( pop() ); thread( push( 3 ) ); } )
#endif
