// Runs one counterexample natively.  Linked with the machine code of the very bitcode that was executed symbolically,
// into which a call of rt_access has been inserted before every access to memory.
//   prog TRACE      exit 1 and a line "FAIL ..." if something goes wrong, as the solver predicted; exit 0 otherwise
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <new>
#include <string>
#include <vector>
#include <signal.h>
#include <sys/mman.h>
#include <ucontext.h>
#include <unistd.h>
extern "C" void ( *rt_entry[] )();      // init, final, threads..., nullptr   or   scenario, nullptr
extern "C" int rt_sequential;
extern "C" int rt_stall;
namespace {
struct E { int t, inst, mark, ok; uint64_t addr; };
struct N { std::string name; uint64_t v; };
std::vector< E > sched; size_t pos = 0;
std::map< int, std::vector< N > > nd; std::map< int, size_t > ndpos;
int cur = -1, nt = 0; bool done[ 8 ], off[ 8 ]; ucontext_t mainc, fc[ 8 ]; std::vector< int > mine[ 8 ]; size_t mp[ 8 ];
long steps = 0, clockNow = 0; std::map< int, long > marks; int diverged = 0;
[[noreturn]] void fail( const char* a, const char* b = "" )
{
    std::printf( "FAIL %s%s%s\n", a, b, diverged ? " (the run had left the predicted schedule)" : "" );
    std::fflush( stdout );
    _exit( 1 );
}
void onsig( int s ) { fail( s == SIGABRT ? "the program is aborted" : s == SIGFPE ? "arithmetic fault" : "invalid access (signal)" ); }
// the heap has the addresses the engine gives to blocks
const uint64_t HI = 1ull << 46, HEAP = HI | 0x1000000, ROOM = 1ull << 26;
uint64_t top[ 10 ]; std::map< uint64_t, uint64_t > live, dead; std::map< uint64_t, int > kindOf;
bool inHeap( uint64_t a ) { return a >= HI && a < HI + 0x100000000ull; }
void* alloc( uint64_t size, uint64_t align, int kind )
{
    int r = cur + 1;
    if ( !top[ r ] ) {
        top[ r ] = r ? HEAP | (uint64_t)r << 28 : HEAP;
        if ( mmap( (void*)top[ r ], ROOM, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0 ) == MAP_FAILED ) { std::printf( "no memory at the address wanted\n" ); _exit( 3 ); }
    }
    if ( size > ROOM / 2 ) throw std::bad_alloc();
    if ( align < 16 ) align = 16;
    top[ r ] = ( top[ r ] + align - 1 ) & ~( align - 1 );
    uint64_t a = top[ r ], rsz = size ? size : 1, room = ( rsz + align - 1 ) & ~( align - 1 );
    if ( room == rsz && align < 64 ) room += 16;
    if ( room == rsz && rsz > 64 ) room += 64;
    top[ r ] += room;
    live[ a ] = rsz; kindOf[ a ] = kind;
    return (void*)a;
}
void release( void* p, int kind )
{
    if ( !p ) return;
    uint64_t a = (uint64_t)p;
    if ( !live.count( a ) ) fail( dead.count( a ) ? "double free" : "free of a pointer that was not allocated" );
    if ( kindOf[ a ] != kind ) fail( "deallocation function does not match the allocation" );
    dead[ a ] = live[ a ]; live.erase( a );
}
void checkAccess( uint64_t a, uint64_t n )
{
    if ( !inHeap( a ) ) return;
    auto it = live.upper_bound( a );
    if ( it != live.begin() && ( --it, a + n <= it->first + it->second ) && a >= it->first ) return;
    auto d = dead.upper_bound( a );
    if ( d != dead.begin() && ( --d, a < d->first + d->second ) ) fail( "access to freed memory" );
    fail( "invalid access" );
}
void toMain() { swapcontext( &fc[ cur ], &mainc ); }
// the next access of this thread in the schedule; waits for its turn
E* turn( int inst, int mark, uint64_t addr )
{
    if ( ++steps > 400000 ) fail( "an operation does not terminate" );
    size_t& m = mp[ cur ];
    if ( m >= mine[ cur ].size() ) {
        if ( ( rt_stall >> cur ) & 1 ) { off[ cur ] = true; toMain(); }
        if ( pos >= sched.size() && steps % 64 == 0 ) toMain();
        else if ( pos < sched.size() ) toMain();        // the others first
        return nullptr;
    }
    E& e = sched[ mine[ cur ][ m ] ];
    if ( mark < 0 ? ( e.inst != inst || ( inHeap( e.addr ) && e.addr != addr ) ) : e.mark != mark ) return nullptr;
    size_t me = mine[ cur ][ m ];
    while ( pos < me ) toMain();
    m++; pos = me + 1;
    while ( pos < sched.size() && sched[ pos ].t < 0 ) pos++;
    return &e;
}
void body() { rt_entry[ 2 + cur ](); done[ cur ] = true; toMain(); }
void drop( int t ) { if ( mp[ t ] < mine[ t ].size() ) diverged++; for ( ; mp[ t ] < mine[ t ].size(); mp[ t ]++ ) sched[ mine[ t ][ mp[ t ] ] ].t = -1; while ( pos < sched.size() && sched[ pos ].t < 0 ) pos++; }
}
extern "C" {
int rt_access( int inst, void* p, uint64_t n, int )
{
    checkAccess( (uint64_t)p, n );
    if ( cur < 0 ) { if ( ++steps > 4000000 ) fail( "an operation does not terminate" ); return 0; }
    E* e = turn( inst, -1, (uint64_t)p );
    checkAccess( (uint64_t)p, n );
    return e && !e->ok;
}
uint64_t __lf_nondet( unsigned bits, const char* name )
{
    auto& q = nd[ cur ]; size_t& i = ndpos[ cur ];
    std::string nm = *name ? name : "_";
    for ( char& c : nm ) if ( c == ' ' ) c = '_';
    if ( i < q.size() && q[ i ].name == nm ) { uint64_t v = q[ i++ ].v; return bits < 64 ? v & ( ( 1ull << bits ) - 1 ) : v; }
    diverged++;
    return 0;
}
void __lf_assume( bool c ) { if ( !c ) { std::printf( "not reproduced: an assumption does not hold\n" ); std::fflush( stdout ); _exit( 0 ); } }
void __lf_assert( bool c, const char* m ) { if ( !c ) fail( "assertion: ", m ); }
void __lf_cover( bool, const char* ) {}
void __lf_mark( int n ) { if ( cur >= 0 ) turn( 0, n, 0 ); marks[ n ] = ++clockNow; }
bool __lf_before( int a, int b ) { return marks.count( a ) && marks.count( b ) && marks[ a ] < marks[ b ]; }
bool __lf_done( int t ) { return done[ t ]; }
bool __lf_symbolic() { return true; }
unsigned __lf_thread() { return cur < 0 ? 99 : cur; }
uint64_t __lf_heap_live() { return live.size(); }
bool rt_is_lock_free( size_t n, const volatile void* ) __asm__( "__atomic_is_lock_free" );
bool rt_is_lock_free( size_t n, const volatile void* ) { return n == 1 || n == 2 || n == 4 || n == 8 || n == 16; }
void __lf_poison( void* p, uint64_t n ) { std::memset( p, 0xa5, n ); }
void* __wrap_malloc( size_t n ) { return alloc( n, 16, 1 ); }
void* __wrap_aligned_alloc( size_t a, size_t n ) { return alloc( n, a, 1 ); }
void* __wrap_memalign( size_t a, size_t n ) { return alloc( n, a, 1 ); }
int   __wrap_posix_memalign( void** p, size_t a, size_t n ) { *p = alloc( n, a, 1 ); return 0; }
void* __wrap_calloc( size_t a, size_t b ) { void* p = alloc( a * b, 16, 1 ); std::memset( p, 0, a * b ); return p; }
void  __wrap_free( void* p ) { release( p, 1 ); }
// operator new and delete, as called by the harness
void* __wrap__Znwm( size_t n ) { return alloc( n, 16, 2 ); }
void* __wrap__Znam( size_t n ) { return alloc( n, 16, 3 ); }
void* __wrap__ZnwmRKSt9nothrow_t( size_t n, void* ) { return alloc( n, 16, 2 ); }
void* __wrap__ZnwmSt11align_val_t( size_t n, size_t a ) { return alloc( n, a, 2 ); }
void* __wrap__ZnamSt11align_val_t( size_t n, size_t a ) { return alloc( n, a, 3 ); }
void  __wrap__ZdlPv( void* p ) { release( p, 2 ); }
void  __wrap__ZdlPvm( void* p, size_t ) { release( p, 2 ); }
void  __wrap__ZdlPvSt11align_val_t( void* p, size_t ) { release( p, 2 ); }
void  __wrap__ZdlPvmSt11align_val_t( void* p, size_t, size_t ) { release( p, 2 ); }
void  __wrap__ZdaPv( void* p ) { release( p, 3 ); }
void  __wrap__ZdaPvm( void* p, size_t ) { release( p, 3 ); }
}
int main( int, char** v )
{
    FILE* f = std::fopen( v[ 1 ], "r" ); char k[ 4 ];
    while ( f && std::fscanf( f, "%3s", k ) == 1 ) {
        if ( k[ 0 ] == 'N' ) { int t; char name[ 256 ]; unsigned long long x; if ( std::fscanf( f, "%d %255s %llu", &t, name, &x ) != 3 ) break; nd[ t ].push_back( { name, x } ); }
        else { E e; unsigned long long a; if ( std::fscanf( f, "%d %d %d %d %llx", &e.t, &e.inst, &e.mark, &e.ok, &a ) != 5 ) break; e.addr = a; sched.push_back( e ); }
    }
    static char alt[ 65536 ]; stack_t ss; std::memset( &ss, 0, sizeof ss ); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack( &ss, nullptr );
    struct sigaction sa; std::memset( &sa, 0, sizeof sa ); sa.sa_handler = onsig; sa.sa_flags = SA_ONSTACK;
    for ( int s : { SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGTRAP } ) sigaction( s, &sa, nullptr );
    try {
        if ( rt_sequential )
            rt_entry[ 0 ]();
        else {
            rt_entry[ 0 ]();
            while ( rt_entry[ 2 + nt ] ) nt++;
            for ( size_t i = 0; i < sched.size(); i++ ) mine[ sched[ i ].t ].push_back( (int)i );
            for ( int t = 0; t < nt; t++ ) {
                char* st = (char*)mmap( nullptr, 1 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0 );
                getcontext( &fc[ t ] ); fc[ t ].uc_stack.ss_sp = st; fc[ t ].uc_stack.ss_size = 1 << 20; fc[ t ].uc_link = nullptr;
                makecontext( &fc[ t ], body, 0 );
            }
            auto resume = [ & ]( int t ) { cur = t; swapcontext( &mainc, &fc[ t ] ); cur = -1; };
            while ( pos < sched.size() ) {
                size_t p0 = pos; int t = sched[ pos ].t;
                if ( done[ t ] || off[ t ] ) { drop( t ); continue; }
                resume( t );
                if ( pos == p0 && done[ t ] ) drop( t );
            }
            for ( int rest = 1; rest; ) {
                rest = 0;
                for ( int t = 0; t < nt; t++ ) if ( !done[ t ] && !off[ t ] ) { if ( ( rt_stall >> t ) & 1 && mp[ t ] >= mine[ t ].size() && steps == 0 ) { off[ t ] = true; continue; } resume( t ); rest = 1; }
            }
            steps = 0;
            rt_entry[ 1 ]();
        }
    } catch ( ... ) { fail( "an exception leaves the scenario" ); }
    std::printf( "not reproduced: the native run finds nothing wrong\n" );
    return 0;
}
