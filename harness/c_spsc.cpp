// spsc_queue: one producer thread against one consumer thread.  CFG 0: run-time sized, 1: capacity<CAP>
//
// The producer always offers consecutive numbers (the n-th accepted element is n), so that the elements received, followed
// by what is left at the end, must be exactly 1, 2, 3, ...  Besides, every operation must accept / deliver at least what the
// space / the elements present throughout the operation allow, and at most what was ever possible during it.
#include "lf.h"
#ifndef CAP
#    define CAP 2
#endif
#ifndef CFG
#    define CFG 0
#endif
#ifndef REALTIME
#    define REALTIME 1
#endif
#include <boost/lockfree/spsc_queue.hpp>
#include "payload.h"
typedef lf_elem P;
#if CFG == 0
typedef boost::lockfree::spsc_queue< P > R;
#else
typedef boost::lockfree::spsc_queue< P, boost::lockfree::capacity< CAP > > R;
#endif
alignas( R ) static char mem[ sizeof( R ) ];
static R* r;
enum Kind { PUSH1, PUSHP, PUSHR, PUSHA, WAVAIL, POP1, POPP, POPA, POPIT, POPPOS, C1, C1C, CALL, CALLC, FRONT, RAVAIL };
struct Op { Kind k; int req; int res; int before; };
static const int MAXO = 4;
static Op  ops[ 2 ][ MAXO ];
static int nops[ 2 ];
static int f0;                      // elements present at the start
static int accepted, received;      // by the threads
static int got[ 16 ], ngot;         // consumer
static int idof( int t, int i ) { return ( t * MAXO + i ) * 2; }

struct Take { void operator()( P const& p ) { if ( ngot < 16 ) got[ ngot ] = p.get(); ngot++; } };
struct TakeC { void operator()( P const& p ) const { if ( ngot < 16 ) got[ ngot ] = p.get(); ngot++; } };
struct OutIt {
    typedef std::output_iterator_tag iterator_category; typedef void value_type; typedef void difference_type; typedef void pointer; typedef void reference;
    OutIt& operator*() { return *this; } OutIt& operator++() { return *this; } OutIt& operator++( int ) { return *this; }
    OutIt& operator=( P const& p ) { if ( ngot < 16 ) got[ ngot ] = p.get(); ngot++; return *this; }
};

struct PosIt {
    typedef std::output_iterator_tag iterator_category; typedef void value_type; typedef void difference_type; typedef void pointer; typedef void reference;
    P* p;
    P& operator*() { return *p; } PosIt& operator++() { ++p; return *this; } PosIt operator++( int ) { PosIt o = *this; ++p; return o; }
};
static void producer()
{
    int next = f0 + 1;
    for ( int i = 0; i < nops[ 0 ]; i++ ) {
        Op& o    = ops[ 0 ][ i ];
        o.before = next - 1;
        P   in[ 3 ];
        for ( int k = 0; k < 3; k++ ) in[ k ] = P( next + k );
        __lf_mark( idof( 0, i ) );
        switch ( o.k ) {
        case PUSH1: o.res = r->push( in[ 0 ] ); break;
        case PUSHP: o.res = (int)r->push( in, o.req ); break;
        case PUSHR: o.res = (int)( r->push( (P const*)in, (P const*)in + o.req ) - in ); break;
        case PUSHA: { P a[ 2 ] = { in[ 0 ], in[ 1 ] }; o.res = (int)r->push( a ); break; }
        case WAVAIL: o.res = (int)r->write_available(); break;
        default: break;
        }
        __lf_mark( idof( 0, i ) + 1 );
        if ( o.k != WAVAIL ) next += o.res;
    }
    accepted = next - 1;
}
static void consumer()
{
    for ( int i = 0; i < nops[ 1 ]; i++ ) {
        Op& o    = ops[ 1 ][ i ];
        o.before = ngot;
        P   out[ 3 ];
        __lf_mark( idof( 1, i ) );
        switch ( o.k ) {
        case POP1: { P p( 0 ); o.res = r->pop( p ); if ( o.res ) got[ ngot++ ] = p.get(); break; }
        case POPP: { o.res = (int)r->pop( out, o.req ); for ( int k = 0; k < 3; k++ ) if ( k < o.res ) got[ ngot++ ] = out[ k ].get(); break; }
        case POPA: { P a[ 2 ]; o.res = (int)r->pop( a ); for ( int k = 0; k < 2; k++ ) if ( k < o.res ) got[ ngot++ ] = a[ k ].get(); break; }
        case POPIT: o.res = (int)r->pop( OutIt() ); break;
        case POPPOS: { P b[ CAP + 1 ]; o.res = (int)r->pop( PosIt{ b } ); for ( int k = 0; k <= CAP; k++ ) if ( k < o.res ) got[ ngot++ ] = b[ k ].get(); break; }
        case C1: { Take t; o.res = r->consume_one( t ); break; }
        case C1C: o.res = r->consume_one( TakeC() ); break;
        case CALL: { Take t; o.res = (int)r->consume_all( t ); break; }
        case CALLC: o.res = (int)r->consume_all( TakeC() ); break;
        case FRONT: { o.res = r->read_available() > 0; if ( o.res ) { P p( r->front() ); LF_ASSERT( p.get() == ngot + 1, "front() is the next element" ); } break; }
        case RAVAIL: o.res = (int)r->read_available(); break;
        default: break;
        }
        __lf_mark( idof( 1, i ) + 1 );
    }
    received = ngot;
}
static bool peek( Kind k ) { return k == FRONT || k == RAVAIL || k == WAVAIL; }
static int imin( int a, int b ) { return a < b ? a : b; }
static void finish()
{
#if PROGRESS        // one side may have stopped for ever in the middle of an operation; the other side goes on
    {
        P p( 0 );
        LF_ASSERT( r->is_lock_free(), "lock-free" );
#    if PROGRESS == 1       // the producer stopped: the consumer empties the queue
        int n = ngot;
        for ( int i = 0; i < 8; i++ )
            if ( i < ngot ) LF_ASSERT( got[ i ] == i + 1, "the elements are received in the order they were pushed" );
        for ( int i = 0; i < CAP + 1; i++ )
            if ( r->pop( p ) ) { n++; LF_ASSERT( p.get() == n, "what is left continues the sequence" ); }
        LF_ASSERT( r->read_available() == 0, "the consumer can drain the queue" );
#    else                   // the consumer stopped: the producer can fill the queue
        int n = 0;
        for ( int i = 0; i < CAP + 1; i++ ) if ( r->push( P( 7 ) ) ) n++;
        LF_ASSERT( r->write_available() == 0 && n <= CAP, "the producer can fill the queue" );
#    endif
        return;
    }
#endif
    int n = received;
    LF_ASSERT( n <= accepted, "no more elements are received than were pushed" );
    for ( int i = 0; i < 8; i++ )
        if ( i < n )
            LF_ASSERT( got[ i ] == i + 1, "the elements are received in the order they were pushed" );
    // pushes: what fits at the start of the operation must be accepted
    for ( int i = 0; i < nops[ 0 ]; i++ ) {
        Op& o  = ops[ 0 ][ i ];
        int lo = 0, hi = 0;         // elements received before the start / possibly before the end of this operation
        for ( int j = 0; j < nops[ 1 ]; j++ ) {
            Op& c = ops[ 1 ][ j ];
            int k = peek( c.k ) ? 0 : c.res;
            if ( REALTIME && __lf_before( idof( 1, j ) + 1, idof( 0, i ) ) ) lo += k;
            if ( !REALTIME || !__lf_before( idof( 0, i ) + 1, idof( 1, j ) ) ) hi += k;
        }
        int room_lo = CAP - ( o.before - lo ), room_hi = CAP - ( o.before - hi );
        if ( o.k == WAVAIL ) LF_ASSERT( room_lo <= o.res && o.res <= room_hi, "write_available() is the free space" );
        else LF_ASSERT( imin( o.req, room_lo ) <= o.res && o.res <= imin( o.req, room_hi ), "a push accepts exactly what there is space for" );
    }
    for ( int j = 0; j < nops[ 1 ]; j++ ) {
        Op& o  = ops[ 1 ][ j ];
        int lo = f0, hi = f0;
        for ( int i = 0; i < nops[ 0 ]; i++ ) {
            Op& c = ops[ 0 ][ i ];
            int k = peek( c.k ) ? 0 : c.res;
            if ( REALTIME && __lf_before( idof( 0, i ) + 1, idof( 1, j ) ) ) lo += k;
            if ( !REALTIME || !__lf_before( idof( 1, j ) + 1, idof( 0, i ) ) ) hi += k;
        }
        int av_lo = lo - o.before, av_hi = hi - o.before;
        if ( o.k == FRONT ) LF_ASSERT( ( av_lo > 0 ) <= o.res && o.res <= ( av_hi > 0 ), "read_available() knows about present elements" );
        else LF_ASSERT( imin( o.req, av_lo ) <= o.res && o.res <= imin( o.req, av_hi ), "a pop delivers exactly what is available" );
    }
    // the rest
    P p( 0 );
    for ( int i = 0; i < 4; i++ )
        if ( r->pop( p ) ) { n++; LF_ASSERT( p.get() == n, "what is left continues the sequence" ); }
    LF_ASSERT( n == accepted, "no element is lost or duplicated" );
    LF_ASSERT( r->read_available() == 0 && r->write_available() == CAP, "the drained queue is empty" );
    r->~R();
    LF_ASSERT( __lf_heap_live() == 0, "the destructor releases all memory" );
}
static void make( int off, int fill )
{
#if CFG == 0
    r = new ( mem ) R( CAP );
#else
    r = new ( mem ) R;
#endif
    P p( 0 );
    for ( int i = 0; i <= CAP; i++ ) if ( i < off ) { r->push( P( 77 ) ); r->pop( p ); }
    for ( int i = 0; i < CAP; i++ ) if ( i < fill ) r->push( P( i + 1 ) );
    f0 = fill;
}
struct D { Kind k; int req; };
template < typename... O > static void thread( int t, O... o ) { D d[] = { o... }; for ( D const& x : d ) { Op& q = ops[ t ][ nops[ t ]++ ]; q.k = x.k; q.req = x.req; } }
// every offset of the ring and every fill level, chosen by the solver
#define ANY make( choose( 0, CAP, "offset" ), choose( 0, CAP, "fill" ) )
#define SCEN( name, ... ) \
    extern "C" void conc_##name##__init() { __VA_ARGS__ } \
    extern "C" void conc_##name##__t0() { producer(); } \
    extern "C" void conc_##name##__t1() { consumer(); } \
    extern "C" void conc_##name##__final() { finish(); }
static const int ALL = 100;
#define B( a, b ) a b
#define PR( ... ) thread( 0, __VA_ARGS__ );
#define CO( ... ) thread( 1, __VA_ARGS__ );
SCEN( R_push_pop, ANY; PR( D{ PUSH1, 1 } ) CO( D{ POP1, 1 } ) )
SCEN( R_push2_pop2, ANY; PR( D{ PUSH1, 1 }, D{ PUSH1, 1 } ) CO( D{ POP1, 1 }, D{ POP1, 1 } ) )
SCEN( R_push3_pop3, ANY; PR( D{ PUSH1, 1 }, D{ PUSH1, 1 }, D{ PUSH1, 1 } ) CO( D{ POP1, 1 }, D{ POP1, 1 }, D{ POP1, 1 } ) )
SCEN( R_pushp_popp, ANY; PR( D{ PUSHP, (int)choose( 0, 3, "count" ) } ) CO( D{ POPP, (int)choose( 0, 3, "count" ) } ) )
SCEN( R_pushr_pops, ANY; PR( D{ PUSHR, (int)choose( 0, 3, "count" ) } ) CO( D{ POP1, 1 }, D{ POP1, 1 } ) )
SCEN( R_pushr_popit, ANY; PR( D{ PUSHR, (int)choose( 0, 3, "count" ) } ) CO( D{ POPIT, ALL } ) )
SCEN( R_pushes_popa, ANY; PR( D{ PUSH1, 1 }, D{ PUSHA, 2 } ) CO( D{ POPA, 2 }, D{ POPA, 2 } ) )
SCEN( R_push_c1, ANY; PR( D{ PUSH1, 1 }, D{ PUSHP, 2 } ) CO( D{ C1, 1 }, D{ C1C, 1 } ) )
SCEN( R_push_call, ANY; PR( D{ PUSH1, 1 }, D{ PUSHR, 2 } ) CO( D{ CALL, ALL }, D{ CALLC, ALL } ) )
SCEN( R_pusha_call, ANY; PR( D{ PUSHA, 2 }, D{ PUSH1, 1 } ) CO( D{ CALLC, ALL }, D{ POP1, 1 } ) )
SCEN( R_avail, ANY; PR( D{ WAVAIL, ALL }, D{ PUSH1, 1 }, D{ WAVAIL, ALL } ) CO( D{ RAVAIL, ALL }, D{ POP1, 1 }, D{ RAVAIL, ALL } ) )
SCEN( R_front, ANY; PR( D{ PUSH1, 1 }, D{ PUSH1, 1 } ) CO( D{ FRONT, 1 }, D{ C1C, 1 }, D{ FRONT, 1 } ) )
SCEN( R_pushpp_poppp, ANY; PR( D{ PUSHP, (int)choose( 0, 3, "count" ) }, D{ PUSHP, (int)choose( 0, 3, "count" ) } ) CO( D{ POPP, (int)choose( 0, 3, "count" ) }, D{ POPP, (int)choose( 0, 3, "count" ) } ) )
SCEN( R_refill, ANY; PR( D{ PUSHP, 2 }, D{ PUSHP, 2 }, D{ PUSHP, 2 } ) CO( D{ CALL, ALL }, D{ POPIT, ALL } ) )
SCEN( R_refillpos, ANY; PR( D{ PUSHR, 2 }, D{ PUSH1, 1 }, D{ PUSHR, 2 } ) CO( D{ POPPOS, ALL }, D{ POPPOS, ALL } ) )
