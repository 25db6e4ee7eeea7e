// queue used by one thread: arbitrary sequences of STEPS operations with arbitrary values, against a reference model.
// CFG 0: node-based, 1: fixed_sized<true>, 2: capacity<CAP>; CAP nodes are available without allocating.
#include "model.h"
#include <boost/lockfree/queue.hpp>
#ifndef CFG
#    define CFG 0
#endif
#ifndef CAP
#    define CAP 2
#endif
#ifndef STEPS
#    define STEPS 4
#endif
#if CFG == 0
typedef boost::lockfree::queue< uint32_t > Q;
#elif CFG == 1
typedef boost::lockfree::queue< uint32_t, boost::lockfree::fixed_sized< true > > Q;
#else
typedef boost::lockfree::queue< uint32_t, boost::lockfree::capacity< CAP > > Q;
#endif
static const int M = CAP + STEPS * 2 + 1;
static Seq< M >  m;
static int       freenodes, live0;
struct Wide { uint64_t x; Wide() : x( 0 ) {} Wide( uint32_t v ) : x( uint64_t( v ) * 2 + 1 ) {} };     // convertible from the element
struct Expl { uint64_t x; Expl() : x( 0 ) {} explicit Expl( uint32_t v ) : x( uint64_t( v ) * 2 + 1 ) {} };     // only constructible from it
// hands the elements to the model in the order in which they arrive
struct F { int* n; void operator()( uint32_t& v ) { LF_ASSERT( *n < 100 && m.n > 0 && v == m.pop_front(), "a consumed element is the oldest one" ); ++*n; } };
struct FC { int* n; void operator()( uint32_t const& v ) const { LF_ASSERT( m.n > 0 && v == m.pop_front(), "a consumed element is the oldest one" ); ++*n; } };
static void took() { freenodes++; }
static void pushed( bool ok, bool may_grow, uint32_t v )
{
    bool grow = CFG == 0 && may_grow && freenodes == 0;
    LF_ASSERT( ok == ( freenodes > 0 || grow ), "a push succeeds exactly when a node is available" );
    if ( ok ) { m.push_back( v ); if ( grow ) live0++; else freenodes--; }
}
static void popped( bool ok, uint64_t got, bool wide )
{
    LF_ASSERT( ok == ( m.n > 0 ), "a pop succeeds exactly when the queue is not empty" );
    if ( ok ) { uint64_t e = m.pop_front(); LF_ASSERT( got == ( wide ? e * 2 + 1 : e ), "a pop delivers the oldest element" ); took(); }
}
static void step( Q& q, unsigned op )
{
    uint32_t v = nondet( 32, "value" );
    switch ( op ) {
    case 0: pushed( q.push( v ), true, v ); break;
    case 1: pushed( q.bounded_push( v ), false, v ); break;
    case 2: pushed( q.unsynchronized_push( v ), true, v ); break;
    case 3: { uint32_t r = v; bool ok = q.pop( r ); popped( ok, r, false ); break; }
    case 4: { uint32_t r = v; bool ok = q.unsynchronized_pop( r ); popped( ok, r, false ); break; }
    case 5: { Wide r; bool ok = q.pop( r ); popped( ok, r.x, true ); break; }
    case 6: { Wide r; bool ok = q.unsynchronized_pop( r ); popped( ok, r.x, true ); break; }
    case 7: { int n = 0, b = m.n; F f = { &n }; bool ok = q.consume_one( f ); LF_ASSERT( ok == ( b > 0 ) && n == ok, "consume_one calls the functor once iff there is an element" ); freenodes += n; break; }
    case 8: { int n = 0, b = m.n; FC f = { &n }; bool ok = q.consume_one( (FC const&)f ); LF_ASSERT( ok == ( b > 0 ) && n == ok, "consume_one calls the functor once iff there is an element" ); freenodes += n; break; }
    case 9: { int n = 0, b = m.n; F f = { &n }; int c = (int)q.consume_all( f ); LF_ASSERT( c == b && n == b, "consume_all consumes every element once" ); freenodes += n; break; }
    case 10: { int n = 0, b = m.n; FC f = { &n }; int c = (int)q.consume_all( (FC const&)f ); LF_ASSERT( c == b && n == b, "consume_all consumes every element once" ); freenodes += n; break; }
    case 11: LF_ASSERT( q.empty() == ( m.n == 0 ), "empty() tells whether the queue is empty" ); break;
    case 12: { Expl r; bool ok = q.pop( r ); popped( ok, r.x, true ); break; }
    case 13: { Expl r; bool ok = q.unsynchronized_pop( r ); popped( ok, r.x, true ); break; }
#if CFG == 0
    case 14: q.reserve( 1 ); freenodes++; live0++; break;
    case 15: q.reserve_unsafe( 2 ); freenodes += 2; live0 += 2; break;
#endif
    }
    LF_ASSERT( (int)__lf_heap_live() == live0, "memory is allocated only when documented" );
    LF_ASSERT( q.empty() == ( m.n == 0 ), "empty() tells whether the queue is empty" );
}
static const unsigned NOPS = CFG == 0 ? 16 : 14;
#if CFG == 2
#    define MAKE Q q
#else
#    define MAKE Q q( CAP )
#endif
static void start( Q& q ) { LF_ASSERT( q.empty(), "a new queue is empty" ); LF_ASSERT( q.is_lock_free(), "lock-free on this platform" ); freenodes = CAP; live0 = (int)__lf_heap_live(); }
static void drain( Q& q )
{
    uint32_t v;
    for ( int i = 0; i < M; i++ )
        if ( m.n > 0 ) { bool ok = q.pop( v ); LF_ASSERT( ok && v == m.pop_front(), "the remaining elements leave in order" ); }
    LF_ASSERT( !q.pop( v ), "nothing is left" );
#if CFG != 0
    // every node can be used again
    for ( int i = 0; i < CAP; i++ )
        LF_ASSERT( q.bounded_push( i ), "all nodes are available again" );
    LF_ASSERT( !q.bounded_push( 9 ), "and no more than that" );
#endif
}
// STEPS state-changing operations (all of the basic overloads), then any operation at all, then everything is taken out
static void run( unsigned lastlo, unsigned lasthi )
{
    {
        static const unsigned char basic[] = { 0, 1, 2, 3, 4, 14 };
        MAKE;
        start( q );
        for ( int i = 0; i < STEPS; i++ )
            step( q, basic[ choose( 0, CFG == 0 ? 5 : 4, "op" ) ] );
        LF_COVER( m.n == ( CFG == 0 || STEPS < CAP ? STEPS : CAP ), "the queue is filled" );
        LF_COVER( m.n == 0, "the queue is empty" );
        step( q, choose( lastlo, lasthi, "last op" ) );
        drain( q );
    }
    LF_ASSERT( __lf_heap_live() == 0, "the destructor releases all memory" );
}
extern "C" void seq_QS_push() { run( 0, 2 ); }
extern "C" void seq_QS_pop() { run( 3, 6 ); }
extern "C" void seq_QS_consume() { run( 7, 10 ); }
extern "C" void seq_QS_misc() { run( 11, NOPS - 1 ); }
