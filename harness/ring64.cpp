// The ring arithmetic for every 64-bit capacity.  The elements have no storage of their own: only the addresses at which they are
// constructed, copied and destroyed are observed, so that no memory of that size is needed.
// PROBE 0: public interface only, from the initial state.  PROBE 1: from every state of the ring (every pair of indices).
#include "lf.h"
#include <boost/lockfree/spsc_queue.hpp>
#ifndef BITS
#    define BITS 62      // no larger object exists
#endif
#ifndef PROBE
#    define PROBE 0
#endif
namespace lf = boost::lockfree;
static const uint64_t BASE = uint64_t( 1 ) << 20;
static uint64_t       places;                    // places requested from the allocator
static uint64_t       made[ 8 ], gone[ 8 ], got[ 8 ];
static int            nmade, ngone, ngot;
static bool           record;
struct E {
    E() {}
    E( E const& ) { if ( record ) made[ nmade++ ] = (uint64_t)this; }
    E& operator=( E const& o ) { if ( record ) got[ ngot++ ] = (uint64_t)&o; return *this; }
    ~E() { if ( record && (uint64_t)this >= BASE && (uint64_t)this - BASE < places ) gone[ ngone++ ] = (uint64_t)this; }
};
template < typename T > struct A {
    typedef T value_type;
    template < typename U > struct rebind { typedef A< U > other; };
    A() {}
    template < typename U > A( A< U > const& ) {}
    T* allocate( std::size_t n ) { places = n; return (T*)BASE; }
    void deallocate( T* p, std::size_t n ) { LF_ASSERT( p == (T*)BASE && n == places, "the ring is released as it was allocated" ); }
    template < typename U > bool operator==( A< U > const& ) const { return true; }
    template < typename U > bool operator!=( A< U > const& ) const { return false; }
};
typedef lf::spsc_queue< E, lf::allocator< A< E > > > Q;
struct Probe : Q {
    Probe( std::size_t n ) : Q( n ) {}
#if PROBE
    // an arbitrary state: any two indices
    void set( uint64_t w, uint64_t r ) { this->write_index_.store( w ); this->read_index_.store( r ); }
#endif
};
struct F { void operator()( E const& e ) { got[ ngot++ ] = (uint64_t)&e; } };
struct It { typedef std::random_access_iterator_tag iterator_category; typedef E value_type; typedef std::ptrdiff_t difference_type; typedef E const* pointer; typedef E const& reference;
    int i; E const& operator*() const; It& operator++() { ++i; return *this; } It operator++( int ) { It r = *this; ++i; return r; } It& operator+=( std::ptrdiff_t d ) { i += (int)d; return *this; }
    It& operator--() { --i; return *this; } It& operator-=( std::ptrdiff_t d ) { i -= (int)d; return *this; }
    It operator+( std::ptrdiff_t d ) const { It r = *this; r.i += (int)d; return r; } std::ptrdiff_t operator-( It const& o ) const { return i - o.i; } E const& operator[]( std::ptrdiff_t ) const;
    bool operator==( It const& o ) const { return i == o.i; } bool operator!=( It const& o ) const { return i != o.i; } bool operator<( It const& o ) const { return i < o.i; } };
static E the;
E const& It::operator*() const { return the; }
struct Out { typedef std::output_iterator_tag iterator_category; typedef void value_type; typedef void difference_type; typedef void pointer; typedef void reference;
    Out& operator*() { return *this; } Out& operator++() { return *this; } Out operator++( int ) { return *this; } Out& operator=( E const& e ) { got[ ngot++ ] = (uint64_t)&e; return *this; } };
alignas( Probe ) static char mem[ sizeof( Probe ) ];
static Probe* q;
static uint64_t N, at, n;        // capacity, position of the oldest element, number of elements
static uint64_t pos( uint64_t i ) { uint64_t p = at + i; return p >= N + 1 ? p - ( N + 1 ) : p; }
static void shape()
{
    LF_ASSERT( q->read_available() == n, "the number of elements" );
    LF_ASSERT( q->write_available() == N - n, "the number of free places" );
    LF_ASSERT( q->empty() == ( n == 0 ), "empty" );
    if ( n > 0 ) LF_ASSERT( (uint64_t)&q->front() == BASE + pos( 0 ), "the oldest element is at the front" );
}
static void added( uint64_t k )
{
    LF_ASSERT( (uint64_t)nmade == k, "one element is constructed for each one accepted" );
    for ( uint64_t i = 0; i < 3; i++ ) if ( i < k ) LF_ASSERT( made[ i ] == BASE + pos( n + i ), "elements are put behind the newest one" );
    LF_ASSERT( ngone == 0, "no element is destroyed" );
    n += k;
    shape();
}
static void removed( uint64_t k, bool seen )
{
    LF_ASSERT( (uint64_t)ngone == k && ( !seen || (uint64_t)ngot == k ), "one element is delivered and destroyed for each one taken" );
    for ( uint64_t i = 0; i < 3; i++ ) if ( i < k ) LF_ASSERT( gone[ i ] == BASE + pos( i ) && ( !seen || got[ i ] == BASE + pos( i ) ), "the oldest elements are taken" );
    LF_ASSERT( nmade == 0, "no element is constructed" );
    at = pos( k );
    n -= k;
    shape();
}
static uint64_t least( uint64_t a, uint64_t b ) { return a < b ? a : b; }
static int count = -1;
static void step( unsigned op )
{
    nmade = ngone = ngot = 0;
    E a[ 3 ];
    unsigned k = count < 0 ? choose( 0, 3, "count" ) : count;
    uint64_t room = N - n;
    record = true;
    uint64_t r;
    switch ( op ) {
    case 0: r = q->push( the ); record = false; LF_ASSERT( r == least( 1, room ), "push succeeds exactly when there is space" ); added( r ); break;
    case 1: { It b = { 0 }, e = { (int)k }; r = q->push( b, e ).i; record = false; LF_ASSERT( r == least( k, room ), "a range push accepts as much as fits" ); added( r ); break; }
    case 2: r = q->push( (E const*)a, k ); record = false; LF_ASSERT( r == least( k, room ), "a batch push accepts as much as fits" ); added( r ); break;
    case 3: r = q->pop( a[ 0 ] ); record = false; LF_ASSERT( r == least( 1, n ), "pop succeeds exactly when there is an element" ); removed( r, true ); break;
    case 4: r = q->pop( a, k ); record = false; LF_ASSERT( r == least( k, n ), "a batch pop delivers as much as there is" ); removed( r, true ); break;
    case 5: { F f; r = q->consume_one( f ); record = false; LF_ASSERT( r == least( 1, n ), "consume_one succeeds exactly when there is an element" ); removed( r, true ); break; }
    case 6: r = q->pop(); record = false; LF_ASSERT( r == least( 1, n ), "pop succeeds exactly when there is an element" ); removed( r, false ); break;
    // everything at once: for up to 3 elements
    case 7: LF_ASSUME( n <= 3 ); { F f; r = q->consume_all( f ); } record = false; LF_ASSERT( r == n, "consume_all takes everything" ); removed( r, true ); break;
    case 8: LF_ASSUME( n <= 3 ); r = q->pop( Out() ); record = false; LF_ASSERT( r == n, "pop takes everything" ); removed( r, true ); break;
    case 9: LF_ASSUME( n <= 3 ); q->reset(); record = false; n = 0; shape(); at = (uint64_t)-1; break;
    }
}
static void start()
{
    N = __lf_nondet( 64, "capacity" );
    LF_ASSUME( N < ( uint64_t( 1 ) << BITS ) );
    q = new ( mem ) Probe( N );
    LF_ASSERT( places == N + 1, "one place more than the capacity is requested" );
    shape();
}
#if PROBE
static void go( unsigned op )
{
    start();
    uint64_t w = __lf_nondet( 64, "write index" );
    at = __lf_nondet( 64, "read index" );
    LF_ASSUME( w <= N && at <= N );
    q->set( w, at );
    n = w >= at ? w - at : w + ( N + 1 ) - at;
    shape();
    step( op );
    LF_COVER( N > 1000000, "a large ring" );
    LF_COVER( op == 9 || op == 6 || w + 1 > N || w < at, "wrapped" );
}
#else
static void go( unsigned op )
{
    start();
    for ( int i = 0; i < 2; i++ ) {
        unsigned o = choose( 0, 4, "op" );
        step( o );
    }
    step( op );
    LF_COVER( N > 1000000, "a large ring" );
}
#endif
extern "C" void seq_RW_push() { go( 0 ); }
#if PROBE
#    define COUNTED( name, op ) extern "C" void seq_RW_##name##0() { count = 0; go( op ); } extern "C" void seq_RW_##name##1() { count = 1; go( op ); } extern "C" void seq_RW_##name##2() { count = 2; go( op ); } extern "C" void seq_RW_##name##3() { count = 3; go( op ); }
#else
#    define COUNTED( name, op ) extern "C" void seq_RW_##name() { go( op ); }
#endif
COUNTED( range, 1 )
COUNTED( batch, 2 )
COUNTED( popn, 4 )
extern "C" void seq_RW_pop() { go( 3 ); }
extern "C" void seq_RW_c1() { go( 5 ); }
extern "C" void seq_RW_discard() { go( 6 ); }
extern "C" void seq_RW_call() { go( 7 ); }
extern "C" void seq_RW_popit() { go( 8 ); }
extern "C" void seq_RW_reset() { go( 9 ); }
