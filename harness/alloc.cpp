// What the container asks of its allocator.  KIND 0: queue, 1: stack, 2: spsc_queue.  CFG 0: node-based / sized at run time,
// 1: fixed_sized<true>, 2: capacity<2>.  ALIGNED: alignment of the elements.
#include "lf.h"
#include <boost/lockfree/queue.hpp>
#include <boost/lockfree/spsc_queue.hpp>
#include <boost/lockfree/stack.hpp>
#ifndef OPS
#    define OPS 2
#endif
#ifndef ALIGNED
#    define ALIGNED 8
#endif
namespace lf = boost::lockfree;
struct alignas( ALIGNED ) X {
    uint32_t v;
    X( uint32_t x = 0 ) : v( x ) { placed(); }
    X( X const& o ) : v( o.v ) { placed(); }
    X& operator=( X const& ) = default;
    void placed() const { LF_ASSERT( reinterpret_cast< uintptr_t >( this ) % ALIGNED == 0, "elements are aligned" ); }
};
// every block is recorded with the identity of the allocator it came from; the allocator aligns to 8 bytes more or less
static const int MOST = 10;
static struct { void* p; std::size_t bytes; unsigned id; bool live; } block[ MOST ];
static int      blocks, live;
static unsigned ids, want;
static bool     stop;            // refuse and record
static uint64_t refused;
struct Refuse {};
template < typename T > struct A {
    typedef T value_type;
    typedef T* pointer; typedef T const* const_pointer; typedef T& reference; typedef T const& const_reference; typedef std::size_t size_type; typedef std::ptrdiff_t difference_type;
    template < typename U > struct rebind { typedef A< U > other; };
    unsigned id;
    A() : id( ids ) {}
    explicit A( unsigned i ) : id( i ) {}
    template < typename U > A( A< U > const& o ) : id( o.id ) {}
    T* allocate( std::size_t n )
    {
        if ( stop ) { refused = n; throw Refuse(); }
        LF_ASSERT( id == want, "memory is requested from the allocator that was given" );
        LF_ASSERT( blocks < MOST, "harness: enough space" );
        T* p = (T*)::operator new( n * sizeof( T ), std::align_val_t( alignof( T ) > 8 ? alignof( T ) : 8 ) );
        block[ blocks ].p = p; block[ blocks ].bytes = n * sizeof( T ); block[ blocks ].id = id; block[ blocks ].live = true;
        blocks++; live++;
        return p;
    }
    void deallocate( T* p, std::size_t n )
    {
        bool known = false;
        for ( int i = 0; i < blocks; i++ )
            if ( block[ i ].p == p && block[ i ].live ) {
                known = true;
                LF_ASSERT( block[ i ].bytes == n * sizeof( T ), "memory is released with the size it was requested with" );
                LF_ASSERT( block[ i ].id == id, "memory is released through the allocator it came from" );
                block[ i ].live = false;
            }
        LF_ASSERT( known, "only live memory of the allocator is released" );
        live--;
        ::operator delete( p, std::align_val_t( alignof( T ) > 8 ? alignof( T ) : 8 ) );
    }
    template < typename U > bool operator==( A< U > const& o ) const { return id == o.id; }
    template < typename U > bool operator!=( A< U > const& o ) const { return id != o.id; }
};
#if CFG == 0
#    define OPTIONS , lf::allocator< A< int > >
#elif CFG == 1
#    define OPTIONS , lf::fixed_sized< true >, lf::allocator< A< int > >
#else
#    define OPTIONS , lf::capacity< 2 >
#endif
#if KIND == 0
typedef lf::queue< X OPTIONS > C;
#elif KIND == 1
typedef lf::stack< X OPTIONS > C;
#else
typedef lf::spsc_queue< X OPTIONS > C;
#endif
alignas( C ) static char mem[ sizeof( C ) ];
static C* c;
static void same() { LF_ASSERT( (uint64_t)live == __lf_heap_live(), "all memory comes from the allocator" ); }
static void use( int ops )
{
    for ( int i = 0; i < ops; i++ ) {
        X x( i );
        switch ( choose( 0, KIND == 2 ? 1 : 4, "op" ) ) {
        case 0: c->push( x ); break;
        case 1: c->pop( x ); break;
#if KIND != 2
        case 2: c->unsynchronized_push( x ); break;
        case 3: c->bounded_push( x ); break;
#    if CFG == 0
        case 4: if ( choose( 0, 1, "safe" ) ) c->reserve( 1 ); else c->reserve_unsafe( 2 ); break;
#    endif
#endif
        }
        same();
    }
}
static void end()
{
    c->~C();
    LF_ASSERT( live == 0, "all memory is released" );
    same();
}
#if CFG == 2
// the container itself may be anywhere its own alignment allows
alignas( 256 ) static char room[ 256 + sizeof( C ) ];
extern "C" void seq_A_inside()
{
    unsigned at = choose( 0, 3, "place" );
    for ( unsigned k = 0; k < 4; k++ )
        if ( at == k && k * 64 % alignof( C ) == 0 ) c = new ( room + k * 64 ) C;
    if ( !c ) return;
    use( OPS );
    LF_COVER( true, "used" );
    end();
}
#else
// allocator passed as it is, rebound from another type, or default-constructed
static void build( unsigned n, unsigned how )
{
    if ( how == 0 ) { want = ids = 7; c = new ( mem ) C( n ); ids = 9; }
    else if ( how == 1 ) { want = 11; c = new ( mem ) C( n, C::allocator( 11 ) ); }
    else { want = 12; c = new ( mem ) C( n, A< char >( 12 ) ); }
    same();
}
static void run( unsigned how, int ops )
{
    unsigned n = choose( 0, 3, "size" );
    for ( unsigned k = 0; k <= 3; k++ ) if ( n == k ) build( k, how );
    use( ops );
    LF_COVER( live > 0, "memory is in use" );
    end();
}
extern "C" void seq_A_default() { run( 0, OPS ); }
extern "C" void seq_A_given() { run( 1, OPS ); }
extern "C" void seq_A_rebound() { run( 2, OPS ); }
// the size of the request for every 64-bit number of elements
extern "C" void seq_M_size()
{
    uint64_t n = __lf_nondet( 64, "size" );
    LF_ASSUME( n + 1 != 0 );
    stop = true; ids = want = 7;
    bool r = false, t = false;
    try { c = new ( mem ) C( n ); } catch ( Refuse& ) { r = true; } catch ( std::runtime_error& ) { t = true; }
#if KIND == 2 && CFG == 0
    LF_ASSERT( r && refused == n + 1, "one place more than the capacity" );
#elif CFG == 1
    const uint64_t nodes = KIND == 0 ? n + 1 : n;
    LF_ASSERT( t == ( nodes > 65535 ), "more elements than an index can address are refused, fewer are not" );
    LF_ASSERT( !t || refused == 0, "nothing is allocated when the size is refused" );
    LF_ASSERT( t || refused >= nodes * ( sizeof( X ) + 2 ), "space for all nodes is requested" );
    LF_COVER( t, "refused" );
#else
    LF_ASSERT( r == ( KIND == 0 || n > 0 ), "memory is requested" );
#endif
    LF_ASSERT( r != t || n == 0, "a constructor that cannot allocate fails" );
    LF_ASSERT( __lf_heap_live() == 0 || t, "nothing is kept" );
}
#endif
