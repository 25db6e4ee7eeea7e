// stack used by one thread: arbitrary sequences of STEPS operations with arbitrary values, then any operation, against a
// reference model.  CFG 0: node-based, 1: fixed_sized<true>, 2: capacity<CAP>; CAP nodes are available without allocating.
#include "model.h"
#include <boost/lockfree/stack.hpp>
#ifndef CFG
#    define CFG 0
#endif
#ifndef CAP
#    define CAP 3
#endif
#ifndef STEPS
#    define STEPS 3
#endif
#if CFG == 0
typedef boost::lockfree::stack< uint32_t > S;
#elif CFG == 1
typedef boost::lockfree::stack< uint32_t, boost::lockfree::fixed_sized< true > > S;
#else
typedef boost::lockfree::stack< uint32_t, boost::lockfree::capacity< CAP > > S;
#endif
static const int M = CAP + STEPS * 2 + 4;
static Seq< M >  m;
static int       freenodes, live0;
struct Wide { uint64_t x; Wide() : x( 0 ) {} Wide( uint32_t v ) : x( uint64_t( v ) * 2 + 1 ) {} };     // convertible from the element
struct F { int* n; void operator()( uint32_t const& v ) { LF_ASSERT( m.n > 0 && v == m.pop_back(), "a consumed element is the newest one" ); ++*n; } };
struct FC { int* n; void operator()( uint32_t const& v ) const { LF_ASSERT( m.n > 0 && v == m.pop_back(), "a consumed element is the newest one" ); ++*n; } };
struct R { int* n; void operator()( uint32_t const& v ) { LF_ASSERT( m.n > 0 && v == m.pop_front(), "reversed consumption starts with the oldest element" ); ++*n; } };
struct RC { int* n; void operator()( uint32_t const& v ) const { LF_ASSERT( m.n > 0 && v == m.pop_front(), "reversed consumption starts with the oldest element" ); ++*n; } };
// a forward iterator that is not a pointer
struct It {
    typedef std::forward_iterator_tag iterator_category; typedef uint32_t value_type; typedef std::ptrdiff_t difference_type; typedef uint32_t const* pointer; typedef uint32_t const& reference;
    uint32_t const* p;
    uint32_t const& operator*() const { return *p; }
    It& operator++() { ++p; return *this; }
    It operator++( int ) { It r = *this; ++p; return r; }
    bool operator==( It const& o ) const { return p == o.p; }
    bool operator!=( It const& o ) const { return p != o.p; }
};
static void pushed( bool ok, bool may_grow, uint32_t v )
{
    bool grow = CFG == 0 && may_grow && freenodes == 0;
    LF_ASSERT( ok == ( freenodes > 0 || grow ), "a push succeeds exactly when a node is available" );
    if ( ok ) { m.push_back( v ); if ( grow ) live0++; else freenodes--; }
}
static void range( int taken, int n, uint32_t const* v, bool may_grow )
{
    bool grow = CFG == 0 && may_grow;
    int  want = grow ? n : n < freenodes ? n : freenodes;
    LF_ASSERT( taken == want, "a range push takes as many elements as there are nodes, and tells where it stopped" );
    for ( int i = 0; i < 3; i++ )
        if ( i < want ) { m.push_back( v[ i ] ); if ( freenodes == 0 ) live0++; else freenodes--; }
}
static void popped( bool ok, uint64_t got, bool wide )
{
    LF_ASSERT( ok == ( m.n > 0 ), "a pop succeeds exactly when the stack is not empty" );
    if ( ok ) { uint64_t e = m.pop_back(); LF_ASSERT( got == ( wide ? e * 2 + 1 : e ), "a pop delivers the newest element" ); freenodes++; }
}
static void took( bool ok, int n, int before, bool all )
{
    if ( all ) LF_ASSERT( n == before && m.n == 0, "consume_all consumes every element once" );
    else LF_ASSERT( ok == ( before > 0 ) && n == ok, "consume_one calls the functor once iff there is an element" );
    freenodes += n;
}
static void step( S& s, unsigned op )
{
    uint32_t v = nondet( 32, "value" );
    int      b = m.n, n = 0, c;
    F f = { &n }; FC fc = { &n }; R r = { &n }; RC rc = { &n };
    switch ( op ) {
    case 0: pushed( s.push( v ), true, v ); break;
    case 1: pushed( s.bounded_push( v ), false, v ); break;
    case 2: pushed( s.unsynchronized_push( v ), true, v ); break;
    case 3: { uint32_t x = v; bool ok = s.pop( x ); popped( ok, x, false ); break; }
    case 4: { uint32_t x = v; bool ok = s.unsynchronized_pop( x ); popped( ok, x, false ); break; }
    case 5: { Wide x; bool ok = s.pop( x ); popped( ok, x.x, true ); break; }
    case 6: { Wide x; bool ok = s.unsynchronized_pop( x ); popped( ok, x.x, true ); break; }
    case 7: case 8: case 9: case 10: {
        uint32_t a[ 3 ] = { v, nondet( 32, "value" ), nondet( 32, "value" ) };
        int      k = choose( 0, 3, "range length" );
        if ( op == 7 ) range( int( s.push( (uint32_t const*)a, (uint32_t const*)a + k ) - a ), k, a, true );
        else if ( op == 8 ) range( int( s.bounded_push( (uint32_t const*)a, (uint32_t const*)a + k ) - a ), k, a, false );
        else if ( op == 9 ) range( int( s.unsynchronized_push( (uint32_t const*)a, (uint32_t const*)a + k ) - a ), k, a, true );
        else { It i = { a }, e = { a + k }; range( int( s.push( i, e ).p - a ), k, a, true ); }
        break;
    }
    case 11: took( s.consume_one( f ), n, b, false ); break;
    case 12: took( s.consume_one( (FC const&)fc ), n, b, false ); break;
    case 13: c = (int)s.consume_all( f ); LF_ASSERT( c == n, "the count" ); took( true, n, b, true ); break;
    case 14: c = (int)s.consume_all( (FC const&)fc ); LF_ASSERT( c == n, "the count" ); took( true, n, b, true ); break;
    case 15: c = (int)s.consume_all_atomic( f ); LF_ASSERT( c == n, "the count" ); took( true, n, b, true ); break;
    case 16: c = (int)s.consume_all_atomic( (FC const&)fc ); LF_ASSERT( c == n, "the count" ); took( true, n, b, true ); break;
    case 17: c = (int)s.consume_all_atomic_reversed( r ); LF_ASSERT( c == n, "the count" ); took( true, n, b, true ); break;
    case 18: c = (int)s.consume_all_atomic_reversed( (RC const&)rc ); LF_ASSERT( c == n, "the count" ); took( true, n, b, true ); break;
#if CFG == 0
    case 19: s.reserve( 1 ); freenodes++; live0++; break;
    case 20: s.reserve_unsafe( 2 ); freenodes += 2; live0 += 2; break;
#endif
    }
    LF_ASSERT( (int)__lf_heap_live() == live0, "memory is allocated only when documented" );
    LF_ASSERT( s.empty() == ( m.n == 0 ), "empty() tells whether the stack is empty" );
}
#if CFG == 2
#    define MAKE S s
#else
#    define MAKE S s( CAP )
#endif
static void start( S& s ) { LF_ASSERT( s.empty(), "a new stack is empty" ); LF_ASSERT( s.is_lock_free(), "lock-free on this platform" ); freenodes = CAP; live0 = (int)__lf_heap_live(); }
static void drain( S& s )
{
    uint32_t v;
    for ( int i = 0; i < M; i++ )
        if ( m.n > 0 ) { bool ok = s.pop( v ); LF_ASSERT( ok && v == m.pop_back(), "the remaining elements leave in order" ); }
    LF_ASSERT( !s.pop( v ), "nothing is left" );
#if CFG != 0
    // every node can be used again
    for ( int i = 0; i < CAP; i++ )
        LF_ASSERT( s.bounded_push( i ), "all nodes are available again" );
    LF_ASSERT( !s.bounded_push( 9 ), "and no more than that" );
#endif
}
// STEPS state-changing operations (all of the basic overloads), then any operation at all, then everything is taken out
static void run( unsigned lastlo, unsigned lasthi )
{
    {
        static const unsigned char basic[] = { 0, 1, 2, 3, 4, 19 };
        MAKE;
        start( s );
        for ( int i = 0; i < STEPS; i++ )
            step( s, basic[ choose( 0, CFG == 0 ? 5 : 4, "op" ) ] );
        LF_COVER( m.n == ( CFG == 0 || STEPS < CAP ? STEPS : CAP ), "the stack is filled" );
        LF_COVER( m.n == 0, "the stack is empty" );
        step( s, choose( lastlo, lasthi, "last op" ) );
        drain( s );
    }
    LF_ASSERT( __lf_heap_live() == 0, "the destructor releases all memory" );
}
extern "C" void seq_SS_push() { run( 0, 2 ); }
extern "C" void seq_SS_pop() { run( 3, 6 ); }
extern "C" void seq_SS_range() { run( 7, 7 ); }
extern "C" void seq_SS_brange() { run( 8, 8 ); }
extern "C" void seq_SS_urange() { run( 9, 9 ); }
extern "C" void seq_SS_iter() { run( 10, 10 ); }
extern "C" void seq_SS_consume() { run( 11, 14 ); }
extern "C" void seq_SS_atomic() { run( 15, 16 ); }
extern "C" void seq_SS_reversed() { run( 17, 18 ); }
#if CFG == 0
extern "C" void seq_SS_reserve() { run( 19, 20 ); }
#endif
