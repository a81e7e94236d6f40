M * pMachine;
M * machine() { return pMachine; }
std::string trig() { return evn( pMachine->triggering_event() ); }
static void step( int op )
{
  postsLeft = 4;
  throwsLeft = 2;
  try
  {
    if ( pMachine->terminated() && op >= 60 ) op = 0;
    if ( op < 12 ) { say( "> initiate" ); pMachine->initiate(); }
    else if ( op < 18 ) { say( "> terminate" ); pMachine->terminate(); }
    else if ( op < 22 ) { say( "> destroy" ); throwsLeft = 0; postsLeft = 0; delete pMachine; pMachine = new M; }
    else if ( clears && op >= 30 && op < 40 ) { say( "> clear history" ); clearRandom(); }
    else if ( op < 30 ) { say( "> post" ); postRandom(); }
    else { say( "> process" ); processRandom(); }
    say( "returns" );
  }
  catch ( const Fault & f ) { say( "throws " + num( f.n ) ); }
  catch ( const std::bad_alloc & ) { say( "throws bad_alloc" ); }
  catch ( ... ) { say( "throws something else" ); }
  if ( !pMachine->terminated() ) entered = true;
  std::string s = pMachine->terminated() ? "terminated" : "active";
  for ( M::state_iterator i = pMachine->state_begin(); i != pMachine->state_end(); ++i )
  {
    for ( const M::state_base_type * p = &*i; p; p = p->outer_state_ptr() )
      s += std::string( p == &*i ? " " : "<" ) + stateName( p );
  }
  say( s + " objects " + num( stateBytes ) + " during " + trig() + casts() );
  ask();
  std::string().swap( visited );
}
int main( int argc, char ** argv )
{
  long first = std::atol( argv[ 1 ] ), count = std::atol( argv[ 2 ] );
  live = argc > 3;
  armed = true;
  for ( long s = first; s < first + count; ++s )
  {
    std::printf( "== %ld\n", s );
    std::fflush( stdout );
    rngState = 0x9E3779B97F4A7C15ULL * u64( s + 1 );
    rnd();
    faults = serials = stateBytes = 0;
    queued = entered = internalMemory[ 0 ] = internalMemory[ 1 ] = false;
    int profile = rnd() % 4;
    pPost = profile == 0 ? 0 : 12 * profile;
    pThrow = profile < 2 ? 0 : 4 * profile;
    pAlloc = profile < 2 ? 0 : 3 * profile;
    long before = blocks;
    pMachine = new M;
    int n = 3 + rnd() % 12;
    step( 0 );
    for ( int i = 0; i < n; ++i ) step( rnd() % 100 );
    throwsLeft = postsLeft = 0;
    if ( VC_ALLOC_ON && ( queued && !internalMemory[ 0 ] || entered && !internalMemory[ 1 ] ) ) say( "memory of internal objects from elsewhere" );
    say( "> destroy" );
    delete pMachine;
    long leaked = blocks - before;
    say( "end objects " + num( stateBytes ) + " leaked blocks " + num( leaked ) );
    flush();
  }
}
