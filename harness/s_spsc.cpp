// spsc_queue used by one thread: from every offset of the ring and every fill level, arbitrary sequences of STEPS operations
// with arbitrary values and sizes, against a reference model.  CFG 0: run-time sized, 1: capacity<CAP>
#include "model.h"
#include <boost/lockfree/spsc_queue.hpp>
#ifndef CFG
#    define CFG 0
#endif
#ifndef CAP
#    define CAP 3
#endif
#ifndef STEPS
#    define STEPS 2
#endif
#if NONTRIVIAL
struct T {      // an element with a non-trivial destructor that forgets its value
    uint32_t v;
    T( uint32_t x = 0 ) : v( x ) {}
    T( T const& o ) : v( o.v ) {}
    T& operator=( T const& o ) { v = o.v; return *this; }
    ~T() { v = 0xdeadbeef; }
    operator uint32_t() const { return v; }
};
#else
typedef uint32_t T;
#endif
#if CFG == 0
typedef boost::lockfree::spsc_queue< T > Q;
#else
typedef boost::lockfree::spsc_queue< T, boost::lockfree::capacity< CAP > > Q;
#endif
static const int M = CAP + 1, MAXN = CAP + 2;
static Seq< M >  m;
static int       live0;
struct Wide { uint64_t x; Wide() : x( 0 ) {} Wide( T const& v ) : x( uint64_t( uint32_t( v ) ) * 2 + 1 ) {} };
struct F { int* n; void operator()( T& v ) { LF_ASSERT( m.n > 0 && v == m.pop_front(), "a consumed element is the oldest one" ); ++*n; } };
struct FC { int* n; void operator()( T const& v ) const { LF_ASSERT( m.n > 0 && v == m.pop_front(), "a consumed element is the oldest one" ); ++*n; } };
struct OutIt {      // a pure output iterator
    typedef std::output_iterator_tag iterator_category; typedef void value_type; typedef void difference_type; typedef void pointer; typedef void reference;
    int* n;
    OutIt& operator*() { return *this; } OutIt& operator++() { return *this; } OutIt& operator++( int ) { return *this; }
    OutIt& operator=( T const& v ) { LF_ASSERT( m.n > 0 && v == m.pop_front(), "elements are written to the iterator in order" ); ++*n; return *this; }
};
struct PosIt {      // a position in an array, known only as an output iterator
    typedef std::output_iterator_tag iterator_category; typedef void value_type; typedef void difference_type; typedef void pointer; typedef void reference;
    T* p;
    T& operator*() { return *p; } PosIt& operator++() { ++p; return *this; } PosIt operator++( int ) { PosIt r = *this; ++p; return r; }
};
struct It {         // a forward iterator that is not a pointer
    typedef std::forward_iterator_tag iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef T const* pointer; typedef T const& reference;
    T const* p;
    T const& operator*() const { return *p; }
    It& operator++() { ++p; return *this; }
    It operator++( int ) { It r = *this; ++p; return r; }
    bool operator==( It const& o ) const { return p == o.p; }
    bool operator!=( It const& o ) const { return p != o.p; }
};
static void pushed( int taken, int n, T const* v )
{
    int want = n < CAP - m.n ? n : CAP - m.n;
    LF_ASSERT( taken == want, "a push takes exactly as many elements as there is space for" );
    for ( int i = 0; i < MAXN; i++ )
        if ( i < want ) m.push_back( v[ i ] );
}
static void popped( int got, int n, T const* v )
{
    int want = n < m.n ? n : m.n;
    LF_ASSERT( got == want, "a pop delivers exactly as many elements as there are" );
    for ( int i = 0; i < MAXN; i++ )
        if ( i < want ) LF_ASSERT( v[ i ] == m.pop_front(), "the elements are delivered in order" );
}
static void observers( Q& q )
{
    LF_ASSERT( (int)q.read_available() == m.n, "read_available() counts the elements" );
    LF_ASSERT( (int)q.write_available() == CAP - m.n, "write_available() counts the free places" );
    LF_ASSERT( q.empty() == ( m.n == 0 ), "empty() tells whether the queue is empty" );
    if ( m.n > 0 ) LF_ASSERT( q.front() == m.v[ 0 ] && const_cast< Q const& >( q ).front() == m.v[ 0 ], "front() is the oldest element" );
    LF_ASSERT( (int)__lf_heap_live() == live0, "no operation allocates" );
}
static void step( Q& q, unsigned op )
{
    int b = m.n, n = 0, c;
    T   a[ MAXN ], o[ MAXN ];
    for ( int i = 0; i < MAXN; i++ ) { a[ i ] = T( nondet( 32, "value" ) ); o[ i ] = T( 0xeeee0000 + i ); }
    int k = choose( 0, MAXN, "size" );
    F f = { &n }; FC fc = { &n };
    switch ( op ) {
    case 0: pushed( q.push( a[ 0 ] ), 1, a ); break;
    case 1: pushed( (int)q.push( a, k ), k, a ); break;
    case 2: { T r[ 2 ] = { a[ 0 ], a[ 1 ] }; pushed( (int)q.push( r ), 2, a ); break; }
    case 3: pushed( int( q.push( (T const*)a, (T const*)a + k ) - a ), k, a ); break;
    case 4: { It i = { a }, e = { a + k }; pushed( int( q.push( i, e ).p - a ), k, a ); break; }
    case 5: { bool ok = q.pop( o[ 0 ] ); popped( ok, 1, o ); break; }
    case 6: { Wide w; bool ok = q.pop( w ); LF_ASSERT( ok == ( b > 0 ), "pop" ); if ( ok ) LF_ASSERT( w.x == uint64_t( m.pop_front() ) * 2 + 1, "pop converts the oldest element" ); break; }
    case 7: popped( (int)q.pop( o, k ), k, o ); for ( int i = 0; i < MAXN; i++ ) if ( i >= k ) LF_ASSERT( o[ i ] == 0xeeee0000 + i, "pop writes no more than asked for" ); break;
    case 8: { T r[ 2 ]; popped( (int)q.pop( r ), 2, ( o[ 0 ] = r[ 0 ], o[ 1 ] = r[ 1 ], o ) ); break; }
    case 9: { OutIt it = { &n }; c = (int)q.pop( it ); LF_ASSERT( c == b && n == b, "pop to an iterator delivers everything" ); break; }
    case 10: { bool ok = q.consume_one( f ); LF_ASSERT( ok == ( b > 0 ) && n == ok, "consume_one calls the functor once iff there is an element" ); break; }
    case 11: { bool ok = q.consume_one( (FC const&)fc ); LF_ASSERT( ok == ( b > 0 ) && n == ok, "consume_one calls the functor once iff there is an element" ); break; }
    case 12: c = (int)q.consume_all( f ); LF_ASSERT( c == b && n == b, "consume_all consumes every element once" ); break;
    case 13: c = (int)q.consume_all( (FC const&)fc ); LF_ASSERT( c == b && n == b, "consume_all consumes every element once" ); break;
    case 14: { bool ok = q.pop(); LF_ASSERT( ok == ( b > 0 ), "pop()" ); if ( ok ) m.pop_front(); break; }
    case 16: { PosIt it = { o }; popped( (int)q.pop( it ), MAXN, o ); break; }
    case 17: popped( (int)q.pop( &o[ 0 ] ), MAXN, o ); break;
    case 15: q.reset(); m.clear(); break;
    }
    observers( q );
}
static void run( unsigned lo, unsigned hi )
{
    {
#if CFG == 0
        Q q( CAP );
#else
        Q q;
#endif
        LF_ASSERT( q.is_lock_free(), "lock-free on this platform" );
        live0 = (int)__lf_heap_live();
        observers( q );
        // any offset of the ring, any fill level (the whole state space of a queue of this capacity)
        unsigned off = choose( 0, CAP, "offset" ), fill = choose( 0, CAP, "fill" );
        for ( unsigned i = 0; i < CAP; i++ ) if ( i < off ) { bool ok = q.push( T( 7 ) ); ok &= q.pop(); LF_ASSERT( ok, "push, pop" ); }
        for ( unsigned i = 0; i < CAP; i++ ) if ( i < fill ) { T x( nondet( 32, "initial" ) ); m.push_back( x ); LF_ASSERT( q.push( x ), "there is space" ); }
        observers( q );
        LF_COVER( m.n == CAP && off == CAP, "a full queue that wraps around" );
        step( q, choose( lo, hi, "op" ) );
        for ( int i = 1; i < STEPS; i++ ) step( q, choose( 0, 17, "op" ) );
        T r( 0 );
        for ( int i = 0; i < CAP; i++ ) if ( m.n > 0 ) { bool ok = q.pop( r ); LF_ASSERT( ok && r == m.pop_front(), "the remaining elements leave in order" ); }
        LF_ASSERT( !q.pop( r ), "nothing is left" );
        for ( unsigned i = 0; i < CAP; i++ ) LF_ASSERT( q.push( T( i ) ), "all places can be used again" );
        LF_ASSERT( !q.push( T( 9 ) ), "and no more than that" );
    }
    LF_ASSERT( __lf_heap_live() == 0, "the destructor releases all memory" );
}
extern "C" void seq_RS_push() { run( 0, 0 ); }
extern "C" void seq_RS_pushn() { run( 1, 2 ); }
extern "C" void seq_RS_pushr() { run( 3, 4 ); }
extern "C" void seq_RS_pop() { run( 5, 6 ); }
extern "C" void seq_RS_popn() { run( 7, 8 ); }
extern "C" void seq_RS_popit() { run( 9, 9 ); }
extern "C" void seq_RS_popitpos() { run( 16, 17 ); }
extern "C" void seq_RS_consume() { run( 10, 13 ); }
extern "C" void seq_RS_reset() { run( 14, 15 ); }
