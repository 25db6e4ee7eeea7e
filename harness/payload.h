// An element type.  With PAYLOAD its accesses are recognised by the race check (functions named lf_payload_*).
#pragma once
struct lf_elem {
    int v;
#if PAYLOAD
    static int  lf_payload_read( int const& x ) { return x; }
    static void lf_payload_write( int& x, int y ) { x = y; }
    lf_elem() { lf_payload_write( v, 0 ); }
    lf_elem( int x ) { lf_payload_write( v, x ); }
    lf_elem( lf_elem const& o ) { lf_payload_write( v, lf_payload_read( o.v ) ); }
    lf_elem& operator=( lf_elem const& o ) { lf_payload_write( v, lf_payload_read( o.v ) ); return *this; }
    int get() const { return lf_payload_read( v ); }
#else
    lf_elem() = default;
    lf_elem( int x ) : v( x ) {}
    int get() const { return v; }
#endif
};
