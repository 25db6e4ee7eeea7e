// stack: concurrent scenarios.  CFG 0: node-based, 1: fixed_sized<true>, 2: capacity<3>
#include "hist.h"
#ifndef PROGRESS
#    define PROGRESS 0
#endif
#include <boost/lockfree/stack.hpp>
using namespace hist;
#ifndef QCAP
#    define QCAP ( PROGRESS ? 6 : 3 )
#endif
#ifndef CFG
#    define CFG 0
#endif
#if CFG == 0
typedef boost::lockfree::stack< int > S;
#elif CFG == 1
typedef boost::lockfree::stack< int, boost::lockfree::fixed_sized< true > > S;
#else
typedef boost::lockfree::stack< int, boost::lockfree::capacity< QCAP > > S;
#endif
alignas( S ) static char mem[ sizeof( S ) ];
static S*   s;
static bool failpush;
#if CFG == 2
static void make( int ) { s = new ( mem ) S; }
#else
static void make( int n ) { s = new ( mem ) S( n ); }
#endif
static void fill( int v ) { s->push( v ); ini.v[ ini.e++ ] = v; }

static void hist_run( int t )
{
    for ( int i = 0; i < nops[ t ]; i++ ) {
        Op& o = ops[ t ][ i ];
        __lf_mark( idof( t, i ) );
        switch ( o.kind ) {
        case PUSH: o.ok = s->push( o.arg[ 0 ] ); break;
        case BPUSH: o.ok = s->bounded_push( o.arg[ 0 ] ); break;
        case PUSHN: o.ok = (int)( s->push( (int const*)o.arg, (int const*)o.arg + o.n ) - o.arg ); break;
        case BPUSHN: o.ok = (int)( s->bounded_push( (int const*)o.arg, (int const*)o.arg + o.n ) - o.arg ); break;
        case POP: { int v = -1; o.ok = s->pop( v ); o.val[ 0 ] = v; break; }
        case C1: { Collect c( o ); o.ok = s->consume_one( c ); break; }
        case C1C: { int n = 0; o.ok = s->consume_one( CollectC( o, &n ) ); break; }
        case CALL: { int n = 0; o.ok = (int)s->consume_all( CollectC( o, &n ) ); break; }
        case CALLF: { Collect c( o ); o.ok = (int)s->consume_all( c ); break; }
        case TAKEALL: { Collect c( o ); o.ok = (int)s->consume_all_atomic( c ); break; }
        case TAKEALLC: { int n = 0; o.ok = (int)s->consume_all_atomic( CollectC( o, &n ) ); break; }
        case TAKEALLREV: { Collect c( o ); o.ok = (int)s->consume_all_atomic_reversed( c ); break; }
        case TAKEALLREVC: { int n = 0; o.ok = (int)s->consume_all_atomic_reversed( CollectC( o, &n ) ); break; }
        case EMPTY: o.ok = s->empty(); break;
        default: break;
        }
        __lf_mark( idof( t, i ) + 1 );
    }
}
static void hist_finish()
{
    int v;
#if PROGRESS        // a thread may have stopped for ever in the middle of an operation
    for ( int i = 0; i < 6; i++ ) if ( !s->pop( v ) ) break;
    v = 0;
    bool ok = s->push( 77 );
    ok &= s->pop( v );
    LF_ASSERT( s->is_lock_free(), "lock-free" );
    LF_ASSERT( ok && v == 77, "the stack remains usable" );
    return;
#endif
    while ( ndrained < 8 && s->pop( v ) )
        drained[ ndrained++ ] = v;
    LF_ASSERT( linearizable( true, REALTIME, failpush ), "the history of the stack is linearizable (LIFO)" );
    s->~S();
#if CFG == 0 || CFG == 1
    LF_ASSERT( __lf_heap_live() == 0, "the destructor releases all memory" );
#endif
}

SCEN2( SL_push_pop, { make( 2 ); fill( 1 ); thread( push( 2 ) ); thread( pop() ); } )
SCEN2( SL_push_pop_empty, { make( 2 ); thread( push( 2 ) ); thread( pop() ); } )
SCEN2( SL_push_push, { make( 2 ); thread( push( 2 ) ); thread( push( 3 ) ); } )
SCEN2( SL_pop_pop, { make( 2 ); fill( 1 ); fill( 2 ); thread( pop() ); thread( pop() ); } )
SCEN2( SL_pop_pop1, { make( 2 ); fill( 1 ); thread( pop() ); thread( pop() ); } )
// a stalled pop against nodes that are removed, recycled and put back (ABA on the top of the stack)
SCEN2( SL_pop_aba, { make( 3 ); fill( 1 ); fill( 2 ); thread( pop() ); thread( pop(), pop(), push( 3 ) ); } )
SCEN2( SL_pop_aba2, { make( 3 ); fill( 1 ); fill( 2 ); thread( pop() ); thread( pop(), pop(), push( 3 ), push( 4 ) ); } )
SCEN2( SL_c1_aba, { make( 3 ); fill( 1 ); fill( 2 ); thread( c1c() ); thread( c1(), c1(), push( 3 ) ); } )
SCEN2( SL_push_poppush, { make( 3 ); fill( 1 ); thread( push( 2 ) ); thread( pop(), push( 3 ) ); } )
SCEN2( SL_pop_poppush, { make( 3 ); fill( 1 ); fill( 2 ); thread( pop() ); thread( pop(), push( 3 ) ); } )
SCEN2( SL_pushpop_pushpop, { make( 3 ); thread( push( 1 ), pop() ); thread( push( 2 ), pop() ); } )
SCEN2( SL_bpush_bpush, { make( 3 ); fill( 1 ); thread( bpush( 2 ) ); thread( bpush( 3 ) ); } )
SCEN2( SL_empty_pushpop, { make( 2 ); thread( isempty() ); thread( push( 1 ), pop() ); } )
SCEN2( SL_empty_pop, { make( 2 ); fill( 1 ); thread( isempty(), isempty() ); thread( pop(), push( 2 ) ); } )
SCEN3( SL_push_push_pop, { make( 3 ); thread( push( 1 ) ); thread( push( 2 ) ); thread( pop() ); } )
SCEN3( SL_push_pop_pop, { make( 3 ); fill( 1 ); thread( push( 2 ) ); thread( pop() ); thread( pop() ); } )
SCEN3( SL_pop_pop_pop, { make( 3 ); fill( 1 ); fill( 2 ); thread( pop() ); thread( pop() ); thread( pop() ); } )
// whole-stack operations
SCEN2( SB_takeall_push, { make( 3 ); fill( 1 ); fill( 2 ); thread( takeall() ); thread( push( 3 ) ); } )
SCEN2( SB_takeall_pop, { make( 3 ); fill( 1 ); fill( 2 ); thread( takeallc() ); thread( pop() ); } )
SCEN2( SB_takeall_poppush, { make( 3 ); fill( 1 ); fill( 2 ); thread( takeall() ); thread( pop(), push( 3 ) ); } )
SCEN2( SB_takeall_takeall, { make( 3 ); fill( 1 ); fill( 2 ); thread( takeall() ); thread( takeallc() ); } )
SCEN2( SB_takerev_push, { make( 3 ); fill( 1 ); fill( 2 ); thread( takeallrev() ); thread( push( 3 ) ); } )
SCEN2( SB_takerev_poppush, { make( 3 ); fill( 1 ); fill( 2 ); thread( takeallrevc() ); thread( pop(), push( 3 ) ); } )
SCEN2( SB_takerev_pop, { make( 3 ); fill( 1 ); fill( 2 ); thread( takeallrevc() ); thread( pop(), pop() ); } )
SCEN2( SB_takerev_takeall, { make( 3 ); fill( 1 ); fill( 2 ); thread( takeallrev() ); thread( takeall() ); } )
SCEN2( SB_call_push, { make( 3 ); fill( 1 ); thread( call() ); thread( push( 2 ) ); } )
SCEN2( SB_call_pop, { make( 3 ); fill( 1 ); fill( 2 ); thread( callf() ); thread( pop() ); } )
#if RANGE
SCEN2( SB_range_pop, { make( 3 ); fill( 1 ); thread( pushn( 2, 3 ) ); thread( pop(), pop() ); } )
SCEN2( SB_range_range, { make( 4 ); failpush = CFG == 2; thread( pushn( 2, 3 ) ); thread( pushn( 4, 5 ) ); } )
SCEN2( SB_range_takeall, { make( 4 ); fill( 1 ); thread( pushn( 2, 3 ) ); thread( takeall() ); } )
SCEN2( SB_range_push, { make( 4 ); thread( pushn( 2, 3 ) ); thread( push( 4 ) ); } )
SCEN2( SB_brange_pop, { make( 3 ); fill( 1 ); thread( bpushn( 2, 3 ) ); thread( pop() ); } )
SCEN2( SB_brange_short, { make( 2 ); fill( 1 ); failpush = true; thread( bpushn( 2, 3 ) ); thread( pop(), pop() ); } )
SCEN2( SB_brange_brange, { make( 3 ); failpush = true; thread( bpushn( 2, 3 ) ); thread( bpushn( 4, 5 ) ); } )
#endif
// a stalled pop against a node that comes back on top of another successor: it is recycled by a push that is itself stalled
SCEN3( SL_aba_pop, { make( 3 ); fill( 1 ); fill( 2 ); thread( pop() ); thread( pop(), pop() ); thread( push( 3 ) ); } )
SCEN3( SL_aba_c1, { make( 3 ); fill( 1 ); fill( 2 ); thread( c1() ); thread( c1(), c1() ); thread( push( 3 ) ); } )
SCEN3( SL_aba_c1c, { make( 3 ); fill( 1 ); fill( 2 ); thread( c1c() ); thread( c1c(), c1c() ); thread( bpush( 3 ) ); } )
SCEN3( SL_mix_3, { make( 3 ); fill( 1 ); thread( pop(), push( 2 ) ); thread( push( 3 ), pop() ); thread( pop() ); } )
SCEN3( SB_aba_take, { make( 3 ); failpush = CFG != 0; fill( 1 ); fill( 2 ); thread( pop() ); thread( takeall() ); thread( push( 3 ), push( 4 ) ); } )
SCEN3( SB_aba_takec, { make( 3 ); fill( 1 ); fill( 2 ); thread( pop() ); thread( takeallc() ); thread( push( 3 ) ); } )
SCEN2( SB_aba_rev, { make( 3 ); fill( 1 ); fill( 2 ); thread( pop() ); thread( takeallrev(), push( 3 ) ); } )
SCEN2( SB_aba_revc, { make( 3 ); fill( 1 ); fill( 2 ); thread( pop() ); thread( takeallrevc(), push( 3 ) ); } )
#if RANGE
SCEN3( SB_aba_range, { make( 4 ); failpush = CFG == 2; fill( 1 ); fill( 2 ); thread( pop() ); thread( pop(), pop() ); thread( pushn( 3, 4 ) ); } )
SCEN3( SB_range_3, { make( 4 ); failpush = CFG == 2; fill( 1 ); thread( pushn( 2, 3 ) ); thread( push( 4 ) ); thread( pop() ); } )
#endif
#ifdef RETRY     // an operation that has to retry several times
SCEN2( SL_retry_push, { make( 4 ); thread( push( 1 ) ); thread( push( 2 ), push( 3 ), push( 4 ) ); } )
SCEN2( SL_retry_pop, { make( 4 ); fill( 1 ); fill( 2 ); fill( 3 ); fill( 4 ); thread( pop() ); thread( pop(), pop(), pop() ); } )
SCEN2( SL_retry_c1c, { make( 4 ); fill( 1 ); fill( 2 ); fill( 3 ); fill( 4 ); thread( c1c() ); thread( c1(), c1(), c1() ); } )
SCEN2( SB_retry_take, { make( 4 ); fill( 1 ); thread( takeall() ); thread( push( 2 ), push( 3 ), push( 4 ) ); } )
SCEN2( SB_retry_rev, { make( 4 ); fill( 1 ); thread( takeallrevc() ); thread( push( 2 ), push( 3 ), push( 4 ) ); } )
#endif
#if PROGRESS        // operations against one that stops somewhere; both orders
SCEN2( SP_push_push, { make( 4 ); thread( push( 1 ) ); thread( push( 2 ) ); } )
SCEN2( SP_push_pop, { make( 4 ); fill( 1 ); thread( push( 2 ) ); thread( pop(), pop() ); } )
SCEN2( SP_pop_push, { make( 4 ); fill( 1 ); thread( pop() ); thread( push( 2 ), push( 3 ) ); } )
SCEN2( SP_pop_pop, { make( 4 ); fill( 1 ); fill( 2 ); thread( pop() ); thread( pop(), pop() ); } )
SCEN2( SP_c1_bpush, { make( 4 ); fill( 1 ); thread( c1() ); thread( bpush( 2 ), c1c() ); } )
SCEN2( SP_call_push, { make( 4 ); fill( 1 ); thread( push( 2 ) ); thread( call() ); } )
SCEN2( SP_takeall_pop, { make( 4 ); fill( 1 ); fill( 2 ); thread( takeall() ); thread( pop(), isempty() ); } )
SCEN2( SP_takerev_push, { make( 4 ); fill( 1 ); fill( 2 ); thread( takeallrev() ); thread( push( 3 ) ); } )
SCEN2( SP_push_takeall, { make( 4 ); fill( 1 ); fill( 2 ); thread( push( 3 ) ); thread( takeallc() ); } )
SCEN2( SP_push_takerev, { make( 4 ); fill( 1 ); fill( 2 ); thread( push( 3 ) ); thread( takeallrevc() ); } )
SCEN2( SP_range_push, { make( 4 ); thread( pushn( 2, 3 ) ); thread( push( 4 ) ); } )
SCEN2( SP_push_range, { make( 4 ); thread( push( 4 ) ); thread( pushn( 2, 3 ) ); } )
SCEN2( SP_pushpop_pushpop, { make( 4 ); thread( push( 1 ), pop() ); thread( push( 2 ), pop() ); } )
SCEN3( SP_3, { make( 4 ); fill( 1 ); thread( push( 2 ) ); thread( pop() ); thread( push( 3 ) ); } )
#endif
