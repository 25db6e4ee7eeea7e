// Exceptions thrown by elements, functors and allocators.
// KIND 0: queue, 1: stack, 2: spsc_queue.  CFG 0: node-based / sized at run time, 1: fixed_sized<true>, 2: capacity<CAP>.
#include "lf.h"
#include <boost/lockfree/queue.hpp>
#include <boost/lockfree/spsc_queue.hpp>
#include <boost/lockfree/stack.hpp>
#ifndef CAP
#    define CAP 3
#endif
namespace lf = boost::lockfree;
struct Err { int k; };
static bool     armed;         // only inside the operation under test
static unsigned fuse, points;  // the throwing point; throwing points passed
static bool     blown;
static void     may_throw() { if ( armed && !blown && points++ == fuse ) { blown = true; throw Err{ 1 }; } }
static int born, died;
static int living() { return born - died; }
#if KIND == 0
// the queue wants trivial assignment and destruction
struct X {
    uint32_t v;
    X() : v( 0 ) { may_throw(); }
    explicit X( uint32_t x ) : v( x ) {}
    X( X const& o ) : v( o.v ) { may_throw(); }
    X& operator=( X const& ) = default;
};
#else
struct X {
    X const* self;
    uint32_t v;
    X() : self( this ), v( 0 ) { may_throw(); born++; }
    explicit X( uint32_t x ) : self( this ), v( x ) { born++; }
    X( X const& o ) : self( this ), v( o.v ) { LF_ASSERT( o.self == &o, "only a living element is copied" ); may_throw(); born++; }
    X& operator=( X const& o ) { LF_ASSERT( o.self == &o, "only a living element is copied" ); may_throw(); v = o.v; return *this; }
    ~X() { LF_ASSERT( self == this, "only a living element is destroyed" ); self = 0; died++; }
};
#endif
struct Wide { uint64_t x; Wide() : x( 0 ) {} Wide( X const& o ) : x( o.v ) { may_throw(); } };
static unsigned taken[ 8 ];
static int      ntaken;
struct F { void operator()( X const& x ) { may_throw(); taken[ ntaken++ ] = x.v; } };
struct FC { void operator()( X const& x ) const { may_throw(); taken[ ntaken++ ] = x.v; } };
template < typename T > struct A {
    typedef T value_type;
    typedef T* pointer; typedef T const* const_pointer; typedef T& reference; typedef T const& const_reference; typedef std::size_t size_type; typedef std::ptrdiff_t difference_type;
    template < typename U > struct rebind { typedef A< U > other; };
    A() {}
    template < typename U > A( A< U > const& ) {}
    T* allocate( std::size_t n ) { may_throw(); return (T*)::operator new( n * sizeof( T ), std::align_val_t( alignof( T ) ) ); }
    void deallocate( T* p, std::size_t n ) { ::operator delete( p, std::align_val_t( alignof( T ) ) ); }
    template < typename U > bool operator==( A< U > const& ) const { return true; }
    template < typename U > bool operator!=( A< U > const& ) const { return false; }
};
#if CFG == 0
#    define OPTIONS , lf::allocator< A< int > >
#elif CFG == 1
#    define OPTIONS , lf::fixed_sized< true >, lf::allocator< A< int > >
#else
#    define OPTIONS , lf::capacity< CAP >
#endif
#if KIND == 0
typedef lf::queue< X OPTIONS > C;
#elif KIND == 1
typedef lf::stack< X OPTIONS > C;
#else
typedef lf::spsc_queue< X OPTIONS > C;
#endif
alignas( C ) static char mem[ sizeof( C ) ];
static C* c;
static void make( unsigned n )
{
#if CFG == 2
    (void)n;
    c = new ( mem ) C;
#else
    c = new ( mem ) C( n );
#endif
}
struct It { typedef std::forward_iterator_tag iterator_category; typedef X value_type; typedef std::ptrdiff_t difference_type; typedef X const* pointer; typedef X const& reference;
    X const* p; X const& operator*() const { return *p; } It& operator++() { ++p; return *this; } It operator++( int ) { It r = *this; ++p; return r; } bool operator==( It const& o ) const { return p == o.p; } bool operator!=( It const& o ) const { return p != o.p; } };
struct Out { typedef std::output_iterator_tag iterator_category; typedef void value_type; typedef void difference_type; typedef void pointer; typedef void reference;
    Out& operator*() { return *this; } Out& operator++() { return *this; } Out operator++( int ) { return *this; } Out& operator=( X const& x ) { may_throw(); taken[ ntaken++ ] = x.v; return *this; } };
// the container holds the newest elements of v, at least `least` of them, in this order of removal
static void holds( unsigned const* v, int n, int least, char const* why )
{
    int      now = 0;
    unsigned r[ CAP + 1 ];
#if KIND != 0
    int alive = living();
#endif
    for ( int i = 0; i < CAP + 1; i++ ) {
        X x( 77 );
        if ( !c->pop( x ) ) break;
        r[ now++ ] = x.v;
    }
    LF_ASSERT( least <= now && now <= n, why );
    for ( int i = 0; i < CAP; i++ )
        if ( i < now ) LF_ASSERT( r[ i ] == v[ n - now + i ], why );
#if KIND != 0
    LF_ASSERT( alive == now && living() == 0, "one living element for each one in the container" );
#endif
}
// the whole capacity can be used, and then everything is released
static void room_and_end( unsigned room )
{
    for ( unsigned i = 0; i < CAP + 2; i++ ) {
        X x( i );
#if KIND == 2
        bool ok = c->push( x );
#else
        bool ok = c->bounded_push( x );
#endif
        LF_ASSERT( ok == ( i < room ), "no space is lost" );
    }
    c->~C();
#if KIND != 0
    LF_ASSERT( living() == 0, "every element is destroyed" );
#endif
    LF_ASSERT( __lf_heap_live() == 0, "all memory is released" );
}
enum Op { PUSH, BPUSH, UPUSH, RANGE, BRANGE, URANGE, BATCH, POP, UPOP, POPU, UPOPU, POPN, POPIT, C1, CC1, CALL, CCALL, TAKE, CTAKE, REV, CREV, RESERVE, URESERVE };
enum Kind { ADDS, TAKES, TAKES_MANY, TAKES_ALL, OTHER };
static void operate( Op op, X* a, unsigned k, unsigned& got )
{
    F f; FC fc; (void)k; (void)got; (void)f; (void)fc;
    switch ( op ) {
    case PUSH: got = c->push( a[ 0 ] ); break;
#if KIND == 2
    case RANGE: { It b = { a }, e = { a + k }; got = unsigned( c->push( b, e ).p - a ); break; }
    case BATCH: got = unsigned( c->push( (X const*)a, k ) ); break;
    case POPN: got = unsigned( c->pop( a, k ) ); break;
    case POPIT: got = unsigned( c->pop( Out() ) ); break;
#else
    case BPUSH: got = c->bounded_push( a[ 0 ] ); break;
    case UPUSH: got = c->unsynchronized_push( a[ 0 ] ); break;
    case UPOP: got = c->unsynchronized_pop( a[ 0 ] ); break;
    case UPOPU: { Wide w; got = c->unsynchronized_pop( w ); break; }
#    if CFG == 0
    case RESERVE: c->reserve( 2 ); break;
    case URESERVE: c->reserve_unsafe( 2 ); break;
#    endif
#endif
#if KIND == 1
    case RANGE: { It b = { a }, e = { a + k }; got = unsigned( c->push( b, e ).p - a ); break; }
    case BRANGE: { It b = { a }, e = { a + k }; got = unsigned( c->bounded_push( b, e ).p - a ); break; }
    case URANGE: { It b = { a }, e = { a + k }; got = unsigned( c->unsynchronized_push( b, e ).p - a ); break; }
    case TAKE: got = (unsigned)c->consume_all_atomic( f ); break;
    case CTAKE: got = (unsigned)c->consume_all_atomic( (FC const&)fc ); break;
    case REV: got = (unsigned)c->consume_all_atomic_reversed( f ); break;
    case CREV: got = (unsigned)c->consume_all_atomic_reversed( (FC const&)fc ); break;
#endif
    case POP: got = c->pop( a[ 0 ] ); break;
    case POPU: { Wide w; got = c->pop( w ); break; }
    case C1: got = c->consume_one( f ); break;
    case CC1: got = c->consume_one( (FC const&)fc ); break;
    case CALL: got = (unsigned)c->consume_all( f ); break;
    case CCALL: got = (unsigned)c->consume_all( (FC const&)fc ); break;
    default: break;
    }
}
static void attempt( Op op, Kind kind )
{
    make( CAP );
    int      off = KIND == 2 ? choose( 0, CAP, "offset" ) : 0, fill = choose( 0, CAP, "fill" );
    unsigned v[ 8 ];
    for ( int i = 0; i < CAP; i++ ) if ( i < off ) { X x( 9 ); c->push( x ); c->pop( x ); }
    for ( int i = 0; i < CAP; i++ ) if ( i < fill ) { X x( 10 + i ); c->push( x ); v[ KIND == 1 ? fill - 1 - i : i ] = 10 + i; }
    uint64_t live = __lf_heap_live();
    unsigned k = choose( 0, 3, "count" ), got = 0;
    fuse = choose( 0, 7, "throwing point" );
    bool threw = false;
    {
        X a[ 3 ] = { X( 1 ), X( 2 ), X( 3 ) };
        armed = true;
        try {
            operate( op, a, k, got );
        } catch ( Err& ) {
            threw = true;
        }
        armed = false;
    }
    LF_ASSERT( threw == blown, "an exception reaches the caller" );
    LF_COVER( threw, "an exception is thrown" );
    LF_COVER( !threw, "no exception is thrown" );
    if ( threw ) {
        unsigned room = CAP;
        if ( KIND != 2 ) room += unsigned( __lf_heap_live() - live );     // nodes that were allocated before the exception stay in the pool
        if ( kind == ADDS || kind == OTHER )
            holds( v, fill, fill, "an addition that fails with an exception has no effect" );
        else if ( kind == TAKES )
            holds( v, fill, fill - 1, "a removal that fails with an exception takes at most one element" );
        else if ( kind == TAKES_MANY ) {
            // what was handed over does not come back, at most one more is lost
            holds( v + ntaken, fill - ntaken, fill - ntaken - 1, "a removal that fails with an exception takes at most one element more than it delivered" );
        } else
            holds( v, fill, 0, "the rest stays in order" );
        room_and_end( room );
    } else {
        // no throwing point was reached: what the operation does is checked by Q03, S04, R03
        X x( 5 );
        for ( int i = 0; i < CAP + 4; i++ )
            if ( !c->pop( x ) ) break;
        c->~C();
        LF_ASSERT( __lf_heap_live() == 0, "all memory is released" );
    }
}
#define OP( op, kind ) extern "C" void seq_E_##op() { attempt( op, kind ); }
OP( PUSH, ADDS )
#if KIND != 0      // assignment never throws in the queue
OP( POP, TAKES )
#endif
OP( POPU, TAKES )
OP( C1, TAKES )
OP( CC1, TAKES )
OP( CALL, TAKES_MANY )
OP( CCALL, TAKES_MANY )
#if KIND == 2
OP( RANGE, ADDS )
OP( BATCH, ADDS )
OP( POPIT, TAKES_MANY )
OP( POPN, TAKES_ALL )
#else
OP( BPUSH, ADDS )
OP( UPUSH, ADDS )
#    if KIND != 0
OP( UPOP, TAKES )
#    endif
OP( UPOPU, TAKES )
#    if CFG == 0
OP( RESERVE, OTHER )
OP( URESERVE, OTHER )
#    endif
#    if KIND == 1
OP( RANGE, ADDS )
OP( BRANGE, ADDS )
OP( URANGE, ADDS )
OP( TAKE, TAKES_ALL )
OP( CTAKE, TAKES_ALL )
OP( REV, TAKES_ALL )
OP( CREV, TAKES_ALL )
#    endif
#endif
// a constructor that fails leaves nothing behind
extern "C" void seq_E_ctor()
{
    unsigned n = choose( 0, 3, "size" );
    fuse       = choose( 0, 7, "throwing point" );
    armed      = true;
    bool threw = false;
    for ( unsigned k = 0; k <= 3; k++ )
        if ( n == k ) {
            try {
                make( k );
            } catch ( Err& ) {
                threw = true;
            }
        }
    armed = false;
    if ( !threw )
        c->~C();
    LF_COVER( CFG == 2 || threw, "an exception is thrown" );
    LF_ASSERT( threw == blown, "an exception reaches the caller" );
    LF_ASSERT( __lf_heap_live() == 0, "a constructor that fails releases all memory" );
}
