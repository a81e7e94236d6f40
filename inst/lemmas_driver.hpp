// runs the lemma functions on concrete values
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <string>
#include <vector>
static unsigned long rs;
static unsigned rnd( unsigned n ) { rs = rs * 6364136223846793005ul + 1442695040888963407ul; return ( unsigned )( ( rs >> 33 ) % n ); }
static std::string shown;
static char pool[ 64 ];
template< class T > struct gen
{
  static T make() { const long v = rnd( 3 ) ? long( rnd( 4 ) ) : long( rs >> 20 ); shown += std::to_string( ( T )v ) + " "; return ( T )v; }
};
template< class T > struct gen< T * >
{
  static T * make() { const unsigned i = rnd( 5 ); shown += "object" + std::to_string( i ) + " "; return ( T * )( pool + 8 * i ); }
};
// type_info objects of one type in two shared objects differ in their address only
struct twin : std::type_info { twin( const std::type_info & t ) : std::type_info( ( new std::string( t.name() ) )->c_str() ) {} };
template<> struct gen< const std::type_info * >
{
  static const std::type_info * make()
  {
    static const std::type_info * t[] = { &typeid( int ), &typeid( char ), &typeid( long ), new twin( typeid( int ) ), new twin( typeid( char ) ) };
    const unsigned i = rnd( 5 ); shown += std::string( "typeid " ) + t[ i ]->name() + ( i > 2 ? "(copy) " : " " ); return t[ i ];
  }
};
struct entry { std::string name; std::function< bool() > run; };
static std::vector< entry > & table() { static std::vector< entry > t; return t; }
template< class... A > static void lemma( const char * name, bool ( *f )( A... ) )
{
  table().push_back( entry{ name, [ f ]() { return f( gen< A >::make()... ); } } );
}
int main( int argc, char ** argv )
{
  const long first = atol( argv[ 1 ] ), count = atol( argv[ 2 ] );
  for ( long i = first; i < first + count; ++i )
  {
    rs = i * 2654435761ul + 12345; rnd( 2 ); rnd( 2 );
    printf( "== %ld\n", i );
    for ( auto & e : table() )
    {
      shown.clear();
      if ( argc > 3 ) { printf( "lemma %s\n", e.name.c_str() ); fflush( stdout ); }
      if ( !e.run() ) { printf( "WRONG: lemma %s does not hold for: %s\n", e.name.c_str(), shown.c_str() ); return 1; }
    }
  }
}
