// The words the containers compare and swap: an address or index together with a version tag.
// KIND 0: the tagged pointer of this platform, 1: the double-width one (compiled as on a platform without spare address bits),
// 2: the tagged index of the fixed-size containers
#include "lf.h"
#include <cstring>
#include <limits>
#include <type_traits>
#if KIND == 1
#    include <boost/lockfree/detail/prefix.hpp>
#    undef BOOST_LOCKFREE_PTR_COMPRESSION
#endif
#include <boost/lockfree/queue.hpp>
namespace d = boost::lockfree::detail;
struct X { int a, b; };
typedef unsigned __int128 u128;
#if KIND == 2
typedef d::tagged_index W;
typedef uint16_t P;
static P    symP() { return (P)nondet( 16, "index" ); }
static P    getP( W const& w ) { return w.get_index(); }
static void setP( W& w, P p ) { w.set_index( p ); }
typedef W::tag_t tag_t;
#else
typedef d::tagged_ptr< X > W;
typedef X* P;
// user-space addresses of this platform have 47 bits; the double-width variant must take any
static P    symP() { return (P)__lf_nondet( KIND == 0 ? 48 : 64, "address" ); }
static P    getP( W const& w ) { return w.get_ptr(); }
static void setP( W& w, P p ) { w.set_ptr( p ); }
typedef W::tag_t tag_t;
#endif
static tag_t symT() { return (tag_t)__lf_nondet( sizeof( tag_t ) * 8, "tag" ); }
static void is( W const& w, P p, tag_t t )
{
    LF_ASSERT( getP( w ) == p, "the address is unchanged" );
    LF_ASSERT( w.get_tag() == t, "the tag is unchanged" );
}
extern "C" void seq_T_value()
{
    P p = symP(), q = symP(); tag_t t = symT(), u = symT();
    W a( p, t ), b( q, u );
    is( a, p, t );
    is( b, q, u );
    W c( a ); is( c, p, t );
    c = b; is( c, q, u ); is( b, q, u );
    setP( a, q ); is( a, q, t );
    W e( p ); is( e, p, 0 );
    LF_COVER( p != q && t != u, "different words" );
}
extern "C" void seq_T_compare()
{
    P p = symP(), q = symP(); tag_t t = symT(), u = symT();
    W a( p, t ), b( q, u );
    bool same = p == q && t == u;
    LF_ASSERT( ( a == b ) == same, "words are equal iff address and tag are" );
    LF_ASSERT( ( a != b ) == !same, "and different otherwise" );
    // a compare-and-swap compares all bytes of the word: those must hold the address and the tag and nothing else
    LF_ASSERT( ( std::memcmp( (void*)&a, (void*)&b, sizeof( W ) ) == 0 ) == same, "the bytes of two words are equal iff address and tag are" );
    LF_ASSERT( std::is_trivially_copyable< W >::value, "trivially copyable" );
    LF_COVER( same, "equal words" );
}
extern "C" void seq_T_next()
{
    P p = symP(); tag_t t = symT();
    W a( p, t );
    tag_t n = a.get_next_tag();
    LF_ASSERT( n == tag_t( t + 1 ), "every version has a successor, and all versions are used before one repeats" );
    W b( p, n );
    is( b, p, n );
    LF_ASSERT( !( a == b ), "the successor differs" );
    LF_COVER( n == 0, "wraps around" );
}
#if KIND != 2
extern "C" void seq_T_deref()
{
    static X x;
    tag_t t = symT();
    W a( &x, t );
    int v = (int)nondet( 32, "value" );
    a->b = v;
    ( *a ).a = v;
    LF_ASSERT( x.a == v && x.b == v, "dereferencing reaches the object whatever the tag is" );
    P p = symP();
    W b( p, t );
    LF_ASSERT( bool( b ) == ( p != 0 ), "null is recognised whatever the tag is" );
}
// atomically: what is stored is loaded, compare-and-swap fails iff address or tag differ
#endif
extern "C" void seq_T_atomic()
{
    P p = symP(), q = symP(), r = symP(); tag_t t = symT(), u = symT(), v = symT();
    W a( p, t ), e( q, u ), n( r, v );
    static d::atomic< W > w;
    w.store( a );
    is( w.load(), p, t );
    bool ok = w.compare_exchange_strong( e, n );
    LF_ASSERT( ok == ( p == q && t == u ), "a compare-and-swap succeeds iff address and tag are as expected" );
    if ( ok ) is( w.load(), r, v );
    else { is( w.load(), p, t ); is( e, p, t ); }
    LF_COVER( ok, "success" );
    LF_COVER( !ok && p == q, "stale version" );
}
