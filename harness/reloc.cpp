// Containers without addresses inside: the bytes of the container are moved elsewhere between operations (as seen by a process
// that maps the same shared memory at another address), and the old place is filled with rubbish.
// KIND 0: queue, 1: stack, 2: spsc_queue<capacity>, 3: spsc_queue with an allocator whose pointers are offsets.
#include "lf.h"
#include <boost/lockfree/queue.hpp>
#include <boost/lockfree/spsc_queue.hpp>
#include <boost/lockfree/stack.hpp>
#include <cstring>
#if KIND == 3
#    include <boost/interprocess/offset_ptr.hpp>
#endif
#ifndef CAP
#    define CAP 2
#endif
#ifndef STEPS
#    define STEPS 3
#endif
namespace lf = boost::lockfree;
#if KIND == 3
static char* arena;           // memory that moves together with the container
template < typename T > struct A {
    typedef T value_type;
    typedef boost::interprocess::offset_ptr< T > pointer;
    template < typename U > struct rebind { typedef A< U > other; };
    A() {}
    template < typename U > A( A< U > const& ) {}
    pointer allocate( std::size_t n ) { LF_ASSERT( n == CAP + 1, "one place more than the capacity" ); return pointer( (T*)arena ); }
    void deallocate( pointer p, std::size_t n ) { LF_ASSERT( &*p == (T*)arena && n == CAP + 1, "the memory is released where it is now" ); }
    template < typename U > bool operator==( A< U > const& ) const { return true; }
    template < typename U > bool operator!=( A< U > const& ) const { return false; }
};
typedef lf::spsc_queue< int, lf::allocator< A< int > > > C;
#elif KIND == 0
typedef lf::queue< int, lf::capacity< CAP > > C;
#elif KIND == 1
typedef lf::stack< int, lf::capacity< CAP > > C;
#else
typedef lf::spsc_queue< int, lf::capacity< CAP > > C;
#endif
struct alignas( C ) Place { char bytes[ sizeof( C ) ]; char extra[ 32 ]; };
static Place place[ STEPS + 4 ];
static C*    c;
static int   where = 0, model[ 16 ], n, next = 100;
static void move_on()
{
    std::memcpy( &place[ where + 1 ], &place[ where ], sizeof( Place ) );
    std::memset( &place[ where ], 0xa5, sizeof( Place ) );
    where++;
    c = (C*)place[ where ].bytes;
#if KIND == 3
    arena = place[ where ].extra;
#endif
}
static void expect_pop( bool ok, int v )
{
    LF_ASSERT( ok == ( n > 0 ), "an element is delivered exactly when there is one" );
    if ( !ok ) return;
#if KIND == 1
    LF_ASSERT( v == model[ n - 1 ], "the right element is delivered" );
#else
    LF_ASSERT( v == model[ 0 ], "the right element is delivered" );
    for ( int i = 0; i + 1 < CAP; i++ ) model[ i ] = model[ i + 1 ];
#endif
    n--;
}
struct F { void operator()( int v ) { expect_pop( true, v ); } };
static void step( unsigned op )
{
    int v = 0;
    if ( op == 0 || op == 3 ) {
        int x = next++;
        bool ok = op == 0 ? c->push( x ) :
#if KIND >= 2
            c->push( &x, 1 ) == 1;
#else
            c->unsynchronized_push( x );
#endif
        LF_ASSERT( ok == ( n < CAP ), "an element is accepted exactly when there is space" );
        if ( ok ) model[ n++ ] = x;
    } else if ( op == 1 ) {
        bool ok = c->pop( v );
        expect_pop( ok, v );
    } else if ( op == 2 ) {
        F f;
        c->consume_all( f );
        LF_ASSERT( n == 0, "everything is consumed" );
    } else {
#if KIND >= 2
        bool ok = c->pop( &v, 1 ) == 1;
#else
        bool ok = c->unsynchronized_pop( v );
#endif
        expect_pop( ok, v );
    }
}
extern "C" void seq_I_move()
{
#if KIND == 3
    arena = place[ 0 ].extra;
    c = new ( place[ 0 ].bytes ) C( CAP );
#else
    c = new ( place[ 0 ].bytes ) C;
#endif
    move_on();
    for ( int i = 0; i < STEPS; i++ ) {
        step( choose( 0, 4, "op" ) );
        move_on();
    }
    LF_COVER( n == CAP, "full" );
    for ( int i = 0; i <= CAP; i++ ) step( 1 );
    move_on();
    for ( int i = 0; i <= CAP; i++ ) step( 0 );
    c->~C();
    LF_ASSERT( __lf_heap_live() == 0, "no memory outside is used" );
}
