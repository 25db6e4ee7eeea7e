// Histories of concurrent operations and the linearizability oracle.
//
// A scenario is a table: the initial contents and, per thread, the operations it performs.  The operations are executed by
// the real container (symbolically, under every schedule); afterwards the container is drained and the recorded results are
// compared with every order of the operations that respects real time (and program order), executed on an abstract queue or
// stack.  All values in the table are constants, so the oracle unfolds into a formula over the recorded results only.
#pragma once
#include "lf.h"
namespace hist {
enum Kind { NONE, PUSH, BPUSH, POP, C1, C1C, CALL, CALLF, PUSHN, BPUSHN, TAKEALL, TAKEALLC, TAKEALLREV, TAKEALLREVC, EMPTY };
static const int MAXT = 4, MAXO = 6, MAXV = 5;
struct Op {
    Kind kind;          // static
    int  n;             // number of values pushed (static)
    int  arg[ MAXV ];   // values pushed (static)
    int  ok;            // result: success / number of values / emptiness
    int  val[ MAXV ];   // values obtained
};
inline Op   ops[ MAXT ][ MAXO ];
inline int  nops[ MAXT ];
inline int  nthreads;
inline int  drained[ 16 ];
inline int  ndrained;

inline constexpr int idof( int t, int i ) { return ( t * MAXO + i ) * 2; }

struct OpDecl { Kind kind; int n; int a, b, c; };
inline constexpr OpDecl push( int v ) { return { PUSH, 1, v, 0, 0 }; }
inline constexpr OpDecl bpush( int v ) { return { BPUSH, 1, v, 0, 0 }; }
inline constexpr OpDecl pushn( int a, int b ) { return { PUSHN, 2, a, b, 0 }; }
inline constexpr OpDecl pushn( int a, int b, int c ) { return { PUSHN, 3, a, b, c }; }
inline constexpr OpDecl bpushn( int a, int b ) { return { BPUSHN, 2, a, b, 0 }; }
inline constexpr OpDecl pop() { return { POP, 0, 0, 0, 0 }; }
inline constexpr OpDecl c1() { return { C1, 0, 0, 0, 0 }; }
inline constexpr OpDecl c1c() { return { C1C, 0, 0, 0, 0 }; }
inline constexpr OpDecl call() { return { CALL, 0, 0, 0, 0 }; }
inline constexpr OpDecl callf() { return { CALLF, 0, 0, 0, 0 }; }
inline constexpr OpDecl takeallc() { return { TAKEALLC, 0, 0, 0, 0 }; }
inline constexpr OpDecl takeallrevc() { return { TAKEALLREVC, 0, 0, 0, 0 }; }
inline constexpr OpDecl takeall() { return { TAKEALL, 0, 0, 0, 0 }; }
inline constexpr OpDecl takeallrev() { return { TAKEALLREV, 0, 0, 0, 0 }; }
inline constexpr OpDecl isempty() { return { EMPTY, 0, 0, 0, 0 }; }

template < typename... O >
inline void thread( O... o )
{
    int t = nthreads++;
    OpDecl d[] = { o... };
    for ( OpDecl const& x : d ) {
        Op& r  = ops[ t ][ nops[ t ]++ ];
        r.kind = x.kind; r.n = x.n; r.arg[ 0 ] = x.a; r.arg[ 1 ] = x.b; r.arg[ 2 ] = x.c;
    }
}

struct Spec {
    int  v[ 16 ];
    int  b, e;         // contents v[b..e)
    Spec() : b( 0 ), e( 0 ) {}
    int  size() const { return e - b; }
};
inline Spec ini;

struct Check {
    bool lifo, realtime, failpush;   // failpush: a push that reports failure is a legal no-op
    int  pos[ MAXT ], sub[ MAXT ];
    bool runDrained( Spec const& s )
    {
        bool ok = ndrained == s.size();
        for ( int i = 0; i < s.size(); i++ )
            ok &= drained[ i ] == ( lifo ? s.v[ s.e - 1 - i ] : s.v[ s.b + i ] );
        return ok;
    }
    bool done( int t, Spec const& s )
    {
        int su   = sub[ t ];
        sub[ t ] = 0;
        pos[ t ]++;
        bool r = rec( s );
        pos[ t ]--;
        sub[ t ] = su;
        return r;
    }
    bool rec( Spec const& s )
    {
        bool any = false, left = false;
        for ( int t = 0; t < nthreads; t++ ) {
            if ( pos[ t ] >= nops[ t ] )
                continue;
            left       = true;
            Op&  o     = ops[ t ][ pos[ t ] ];
            bool legal = true;
            if ( realtime )
                for ( int u = 0; u < nthreads; u++ )
                    if ( u != t )
                        for ( int j = pos[ u ]; j < nops[ u ]; j++ )
                            legal &= !__lf_before( idof( u, j ) + 1, idof( t, pos[ t ] ) );
            switch ( o.kind ) {
            case PUSH: case BPUSH: case PUSHN: case BPUSHN: {
                for ( int m = o.n; m >= 0; m-- ) {     // a prefix may be pushed when the pool is exhausted
                    if ( m < o.n && !failpush )
                        break;
                    Spec n = s;
                    for ( int k = 0; k < m; k++ )
                        n.v[ n.e++ ] = o.arg[ k ];
                    any |= ( legal & ( o.ok == m ) ) & done( t, n );
                }
                break;
            }
            case POP: case C1: case C1C: {
                Spec n = s;
                if ( s.size() == 0 )
                    legal &= o.ok == 0;
                else {
                    int x = lifo ? n.v[ --n.e ] : n.v[ n.b++ ];
                    legal &= ( o.ok == 1 ) & ( o.val[ 0 ] == x );
                }
                any |= legal & done( t, n );
                break;
            }
            case CALL: case CALLF: {        // element by element until the container is seen empty
                int k = sub[ t ];
                if ( s.size() == 0 )
                    any |= ( legal & ( o.ok == k ) ) & done( t, s );
                else if ( k < MAXV ) {
                    Spec n = s;
                    int x  = lifo ? n.v[ --n.e ] : n.v[ n.b++ ];
                    legal &= ( o.ok > k ) & ( o.val[ k ] == x );
                    sub[ t ]++;
                    any |= legal & rec( n );
                    sub[ t ]--;
                }
                break;
            }
            case TAKEALL: case TAKEALLC: case TAKEALLREV: case TAKEALLREVC: {   // takes everything in one step
                legal &= o.ok == s.size();
                for ( int k = 0; k < s.size() && k < MAXV; k++ ) {
                    bool rev = o.kind == TAKEALLREV || o.kind == TAKEALLREVC;
                    legal &= o.val[ k ] == ( lifo != rev ? s.v[ s.e - 1 - k ] : s.v[ s.b + k ] );
                }
                any |= legal & done( t, Spec() );
                break;
            }
            case EMPTY:
                any |= ( legal & ( o.ok == ( s.size() == 0 ) ) ) & done( t, s );
                break;
            default: break;
            }
        }
        return left ? any : runDrained( s );
    }
};
inline bool linearizable( bool lifo, bool realtime = true, bool failpush = false )
{
    Check c;
    c.lifo = lifo; c.realtime = realtime; c.failpush = failpush;
    for ( int i = 0; i < MAXT; i++ )
        c.pos[ i ] = c.sub[ i ] = 0;
    return c.rec( ini );
}
// values handed to a functor
struct Collect {
    Op& o;
    int n;
    explicit Collect( Op& x ) : o( x ), n( 0 ) {}
    template < typename T >
    void operator()( T const& v ) { if ( n < MAXV ) o.val[ n ] = (int)v; n++; }
};
struct CollectC {       // the overloads that take the functor by const reference
    Op&  o;
    int* n;
    CollectC( Op& x, int* c ) : o( x ), n( c ) {}
    template < typename T >
    void operator()( T const& v ) const { if ( *n < MAXV ) o.val[ *n ] = (int)v; ( *n )++; }
};
#ifndef REALTIME
#    define REALTIME true
#endif
// scenario plumbing: THREADS is the number of threads, every scenario provides setup()
#define SCEN_COMMON( name, setup ) \
    extern "C" void conc_##name##__init() { setup } \
    extern "C" void conc_##name##__final() { hist_finish(); }
#define SCEN1( name, setup ) SCEN_COMMON( name, setup ) extern "C" void conc_##name##__t0() { hist_run( 0 ); }
#define SCEN2( name, setup ) SCEN1( name, setup ) extern "C" void conc_##name##__t1() { hist_run( 1 ); }
#define SCEN3( name, setup ) SCEN2( name, setup ) extern "C" void conc_##name##__t2() { hist_run( 2 ); }
#define SCEN4( name, setup ) SCEN3( name, setup ) extern "C" void conc_##name##__t3() { hist_run( 3 ); }
} // namespace hist
