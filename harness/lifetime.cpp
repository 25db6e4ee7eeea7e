// Every element is constructed and destroyed exactly once, and only living elements are used.
// KIND 1: stack, 2: spsc_queue.  CFG 0: node-based / sized at run time, 1: fixed_sized<true> (stack), 2: capacity<CAP>.
#include "lf.h"
#include <boost/lockfree/spsc_queue.hpp>
#include <boost/lockfree/stack.hpp>
#ifndef CAP
#    define CAP 3
#endif
#ifndef STEPS
#    define STEPS 3
#endif
#ifndef CONC
#    define CONC 0
#endif
namespace lf = boost::lockfree;
extern "C" unsigned __lf_thread( void );
static int born[ 4 ], died[ 4 ];
static int me() { unsigned t = CONC ? __lf_thread() : 99; return t < 3 ? (int)t : 3; }
static int living() { return born[ 0 ] + born[ 1 ] + born[ 2 ] + born[ 3 ] - died[ 0 ] - died[ 1 ] - died[ 2 ] - died[ 3 ]; }
#ifndef ELEM
#    define ELEM 0      // 0: everything observed; 1: trivially copied and assigned, the destructor is observed; 2: no destructor, copies are observed
#endif
static int  total;       // elements put into the container so far (ELEM 1, 2)
static bool inside( void const* );
#if ELEM == 0
struct alignas( 16 ) X {
    X const* self;
    uint32_t v;
    explicit X( uint32_t x = 0 ) : self( this ), v( x ) { born[ me() ]++; LF_ASSERT( reinterpret_cast< uintptr_t >( this ) % alignof( X ) == 0, "elements are aligned" ); }
    X( X const& o ) : self( this ), v( o.v ) { LF_ASSERT( o.self == &o, "only a living element is copied" ); born[ me() ]++; LF_ASSERT( reinterpret_cast< uintptr_t >( this ) % alignof( X ) == 0, "elements are aligned" ); }
    X& operator=( X const& o ) { LF_ASSERT( o.self == &o, "only a living element is copied" ); LF_ASSERT( self == this, "only a living element is assigned to" ); v = o.v; return *this; }
    ~X() { LF_ASSERT( self == this, "only a living element is destroyed" ); self = 0; died[ me() ]++; }
};
#    define SELF( o ) ( ( o ).self == &( o ) )
#elif ELEM == 1
struct X {
    uint32_t v;
    explicit X( uint32_t x = 0 ) : v( x ) {}
    ~X() { if ( inside( this ) ) died[ 3 ]++; }
};
static_assert( std::is_trivially_copy_assignable< X >::value && !std::is_trivially_destructible< X >::value, "" );
#    define SELF( o ) true
#else
struct alignas( 16 ) X {
    X const* self;
    uint32_t v;
    explicit X( uint32_t x = 0 ) : self( this ), v( x ) {}
    X( X const& o ) : self( this ), v( o.v ) { LF_ASSERT( o.self == &o, "only a living element is copied" ); if ( inside( this ) ) born[ 3 ]++; }
    X& operator=( X const& o ) { LF_ASSERT( o.self == &o, "only a living element is copied" ); LF_ASSERT( self == this, "only a living element is assigned to" ); v = o.v; return *this; }
};
static_assert( std::is_trivially_destructible< X >::value, "" );
#    define SELF( o ) ( ( o ).self == &( o ) )
#endif
struct Wide { uint64_t x; Wide() : x( 0 ) {} Wide( X const& o ) : x( o.v ) { LF_ASSERT( SELF( o ), "only a living element is converted" ); } };
static int seen;
struct F { void operator()( X const& x ) { LF_ASSERT( SELF( x ), "the functor is given a living element" ); seen++; } };
struct FC { void operator()( X const& x ) const { LF_ASSERT( SELF( x ), "the functor is given a living element" ); seen++; } };
struct FK { X* keep; void operator()( X const& x ) { *keep = x; seen++; } };
#if CFG == 0
#    define OPTIONS
#elif CFG == 1
#    define OPTIONS , lf::fixed_sized< true >
#else
#    define OPTIONS , lf::capacity< CAP >
#endif
#if KIND == 1
typedef lf::stack< X OPTIONS > C;
#else
typedef lf::spsc_queue< X OPTIONS > C;
#endif
alignas( C ) static char mem[ sizeof( C ) ];
static C* c;
static bool inside( void const* p ) { return (char const*)p >= mem && (char const*)p < mem + sizeof( C ); }
#if CFG == 2
static void make() { c = new ( mem ) C; }
#else
static void make() { c = new ( mem ) C( CAP ); }
#endif
#if !CONC
struct It { typedef std::forward_iterator_tag iterator_category; typedef X value_type; typedef std::ptrdiff_t difference_type; typedef X const* pointer; typedef X const& reference;
    X const* p; X const& operator*() const { return *p; } It& operator++() { ++p; return *this; } It operator++( int ) { It r = *this; ++p; return r; } bool operator==( It const& o ) const { return p == o.p; } bool operator!=( It const& o ) const { return p != o.p; } };
struct Out { typedef std::output_iterator_tag iterator_category; typedef void value_type; typedef void difference_type; typedef void pointer; typedef void reference;
    int* n; Out& operator*() { return *this; } Out& operator++() { return *this; } Out operator++( int ) { return *this; } Out& operator=( X const& x ) { LF_ASSERT( SELF( x ), "only a living element is copied" ); ++*n; return *this; } };
static int n;      // elements in the container
static void in( int k ) { n += k; total += k; }
#if ELEM == 0
#    define LIVING living()
#elif ELEM == 1
#    define LIVING ( total - died[ 3 ] )
#else
#    define LIVING ( born[ 3 ] - total + n )
#endif
static void step( unsigned op )
{
    X a[ 3 ] = { X( 1 ), X( 2 ), X( 3 ) };
    int k = choose( 0, 3, "count" ), got = 0;
    seen  = 0;
    F f; FC fc; FK fk = { &a[ 0 ] };
    switch ( op ) {
    case 0: in( c->push( a[ 0 ] ) ); break;
    case 1: n -= c->pop( a[ 0 ] ); break;
    case 2: c->consume_one( fk ); n -= seen; break;
    case 3: c->consume_one( (FC const&)fc ); n -= seen; break;
    case 4: c->consume_all( f ); LF_ASSERT( seen == n, "all elements are consumed" ); n = 0; break;
    case 5: c->consume_all( (FC const&)fc ); LF_ASSERT( seen == n, "all elements are consumed" ); n = 0; break;
    case 6: in( int( c->push( (X const*)a, (X const*)a + k ) - a ) ); break;
    case 7: { It b = { a }, e = { a + k }; in( int( c->push( b, e ).p - a ) ); break; }
    case 8: { Wide w; n -= c->pop( w ); break; }
#if KIND == 1
    case 9: in( c->bounded_push( a[ 0 ] ) ); break;
    case 10: in( c->unsynchronized_push( a[ 0 ] ) ); break;
    case 11: n -= c->unsynchronized_pop( a[ 0 ] ); break;
    case 12: in( int( c->bounded_push( (X const*)a, (X const*)a + k ) - a ) ); break;
    case 13: in( int( c->unsynchronized_push( (X const*)a, (X const*)a + k ) - a ) ); break;
    case 14: c->consume_all_atomic( f ); LF_ASSERT( seen == n, "all elements are consumed" ); n = 0; break;
    case 15: c->consume_all_atomic( (FC const&)fc ); LF_ASSERT( seen == n, "all elements are consumed" ); n = 0; break;
    case 16: c->consume_all_atomic_reversed( f ); LF_ASSERT( seen == n, "all elements are consumed" ); n = 0; break;
    case 17: c->consume_all_atomic_reversed( (FC const&)fc ); LF_ASSERT( seen == n, "all elements are consumed" ); n = 0; break;
    case 18: { Wide w; n -= c->unsynchronized_pop( w ); break; }
#else
    case 9: in( (int)c->push( a, k ) ); break;
    case 10: in( (int)c->push( a ) ); break;
    case 11: n -= (int)c->pop( a, k ); break;
    case 12: n -= (int)c->pop( a ); break;
    case 13: c->pop( Out{ &got } ); LF_ASSERT( got == n, "all elements are delivered" ); n = 0; break;
    case 14: n -= c->pop(); break;
    case 15: c->reset(); n = 0; break;
    case 16: n -= (int)c->pop( &a[ 0 ] ); break;
#endif
    }
}
static void run( unsigned lo, unsigned hi )
{
    make();
    // any number of elements; for the ring buffer at any offset
    int off = KIND == 2 ? choose( 0, CAP, "offset" ) : 0, fill = choose( 0, CAP, "fill" );
    LF_ASSERT( LIVING == 0, "an empty container contains no elements" );
    for ( int i = 0; i < CAP; i++ ) if ( i < off ) { X x( 9 ); bool ok = c->push( x ); ok &= c->pop( x ); total++; LF_ASSERT( ok, "push, pop" ); }
    for ( int i = 0; i < CAP; i++ ) if ( i < fill ) { X x( i ); c->push( x ); total++; }
    n = fill;
    LF_ASSERT( LIVING == n, "one living element for each one in the container" );
    for ( int i = 0; i < STEPS; i++ ) {
        step( i == 0 ? choose( lo, hi, "op" ) : choose( 0, KIND == 1 ? 18 : 16, "op" ) );
        LF_ASSERT( LIVING == n, "one living element for each one in the container" );
    }
    LF_COVER( n > 0, "elements are left" );
    c->~C();
    if ( ELEM == 2 ) n = 0; else
    LF_ASSERT( LIVING == 0, "the destructor destroys what is left" );
    LF_ASSERT( __lf_heap_live() == 0, "the destructor releases all memory" );
}
extern "C" void seq_LT_0() { run( 0, 0 ); }
extern "C" void seq_LT_1() { run( 1, 3 ); }
extern "C" void seq_LT_4() { run( 4, 5 ); }
extern "C" void seq_LT_6() { run( 6, 6 ); }
extern "C" void seq_LT_7() { run( 7, 7 ); }
extern "C" void seq_LT_8() { run( 8, 8 ); }
extern "C" void seq_LT_9() { run( 9, 10 ); }
extern "C" void seq_LT_11() { run( 11, 11 ); }
extern "C" void seq_LT_12() { run( 12, 12 ); }
extern "C" void seq_LT_13() { run( 13, 13 ); }
extern "C" void seq_LT_14() { run( 14, 15 ); }
extern "C" void seq_LT_16() { run( 16, KIND == 1 ? 17 : 16 ); }
#else
// concurrent use: the accesses to the elements themselves are part of the schedule
enum K { PUSH, POP, C1, CALL, TAKE, TAKEREV, RANGE, POPN, POPIT, DISCARD };
static int prog[ 3 ][ 4 ], nprog[ 3 ], nthreads;
template < typename... O > static void thread( O... o ) { int k[] = { (int)o... }; for ( int x : k ) prog[ nthreads ][ nprog[ nthreads ]++ ] = x; nthreads++; }
struct E { void operator()( X const& x ) const { LF_ASSERT( SELF( x ), "the functor is given a living element" ); } };
struct Out { typedef std::output_iterator_tag iterator_category; typedef void value_type; typedef void difference_type; typedef void pointer; typedef void reference;
    Out& operator*() { return *this; } Out& operator++() { return *this; } Out operator++( int ) { return *this; } Out& operator=( X const& x ) { LF_ASSERT( SELF( x ), "only a living element is copied" ); return *this; } };
static void go( int t )
{
    for ( int i = 0; i < nprog[ t ]; i++ )
        switch ( prog[ t ][ i ] ) {
        case PUSH: { X x( 5 ); c->push( x ); break; }
        case POP: { X x( 0 ); c->pop( x ); break; }
        case C1: c->consume_one( E() ); break;
        case CALL: c->consume_all( E() ); break;
        case RANGE: { X x[ 2 ] = { X( 6 ), X( 7 ) }; c->push( (X const*)x, (X const*)x + 2 ); break; }
#if KIND == 1
        case TAKE: c->consume_all_atomic( E() ); break;
        case TAKEREV: c->consume_all_atomic_reversed( E() ); break;
#else
        case POPN: { X x[ 2 ]; c->pop( x ); break; }
        case POPIT: c->pop( Out() ); break;
        case DISCARD: c->pop(); break;
#endif
        }
}
static void start( int off, int fill )
{
    make();
    for ( int i = 0; i < CAP; i++ ) if ( i < off ) { X x( 9 ); c->push( x ); c->pop( x ); }
    for ( int i = 0; i < CAP; i++ ) if ( i < fill ) { X x( i ); c->push( x ); }
}
static void finish()
{
    c->~C();
    LF_ASSERT( living() == 0, "every element that was constructed is destroyed exactly once" );
    LF_ASSERT( __lf_heap_live() == 0, "the destructor releases all memory" );
}
#define SCEN_COMMON( name, ... ) \
    extern "C" void conc_##name##__init() { __VA_ARGS__ } \
    extern "C" void conc_##name##__final() { finish(); }
#define SCEN2( name, ... ) SCEN_COMMON( name, __VA_ARGS__ ) extern "C" void conc_##name##__t0() { go( 0 ); } extern "C" void conc_##name##__t1() { go( 1 ); }
#define SCEN3( name, ... ) SCEN2( name, __VA_ARGS__ ) extern "C" void conc_##name##__t2() { go( 2 ); }
#if KIND == 1
SCEN2( LC_push_pop, start( 0, 1 ); thread( PUSH ); thread( POP ); )
SCEN2( LC_pop_pop, start( 0, 2 ); thread( POP ); thread( POP ); )
SCEN2( LC_pop_c1push, start( 0, 2 ); thread( POP ); thread( C1, PUSH ); )
SCEN2( LC_pop_aba, start( 0, 2 ); thread( C1 ); thread( POP, POP, PUSH ); )
SCEN2( LC_take_pop, start( 0, 2 ); thread( TAKE ); thread( POP ); )
SCEN2( LC_take_take, start( 0, 2 ); thread( TAKE ); thread( TAKE ); )
SCEN2( LC_rev_push, start( 0, 2 ); thread( TAKEREV ); thread( PUSH ); )
SCEN2( LC_rev_pop, start( 0, 2 ); thread( TAKEREV ); thread( POP ); )
SCEN2( LC_call_push, start( 0, 1 ); thread( CALL ); thread( PUSH ); )
SCEN2( LC_range_pop, start( 0, 1 ); thread( RANGE ); thread( POP ); )
SCEN2( LC_range_take, start( 0, 1 ); thread( RANGE ); thread( TAKE ); )
SCEN3( LC_push_pop_pop, start( 0, 1 ); thread( PUSH ); thread( POP ); thread( POP ); )
#else
#define ANY start( choose( 0, CAP, "offset" ), choose( 0, CAP, "fill" ) )
SCEN2( LC_push_pop, ANY; thread( PUSH, PUSH ); thread( POP, POP ); )
SCEN2( LC_push_c1, ANY; thread( PUSH, PUSH ); thread( C1, DISCARD ); )
SCEN2( LC_push_call, ANY; thread( PUSH, PUSH ); thread( CALL, CALL ); )
SCEN2( LC_range_pop, ANY; thread( RANGE ); thread( POP, POP ); )
SCEN2( LC_range_popn, ANY; thread( RANGE, PUSH ); thread( POPN, POP ); )
SCEN2( LC_range_popit, ANY; thread( RANGE, RANGE ); thread( POPIT, POPIT ); )
SCEN2( LC_range_call, ANY; thread( RANGE, RANGE ); thread( CALL, C1 ); )
#endif
#endif
