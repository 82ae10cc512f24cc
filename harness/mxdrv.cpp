// Conformance driver: executes scripts (one JSON object per line of stdin) against the real library and
// prints what the library did (one JSON line per script). It decides nothing.
#include "reflect.h"
#include "ops.h"
#include <iostream>
#include <fstream>

static std::map<std::string, js::Value ( * )( const js::Value& )>& table()
{
    static std::map<std::string, js::Value ( * )( const js::Value& )> t;
    return t;
}
RegisterOp::RegisterOp( const char* name, js::Value ( *fn )( const js::Value& ) ) { table()[name] = fn; }

int main()
{
    std::ios::sync_with_stdio( false );
    // the library prints diagnostics to std::cout: keep our channel separate
    std::ostream out( std::cout.rdbuf() );
    std::ostringstream sink;
    auto* const keep = std::cout.rdbuf( sink.rdbuf() );
    std::string line;
    while( std::getline( std::cin, line ) )
    {
        if( line.empty() ) continue;
        js::Value res;
        try
        {
            auto j = js::parse( line );
            auto it = table().find( j.at( "op" ).str() );
            if( it == table().end() ) throw std::logic_error( "harness: unknown op" );
            res = it->second( j );
        }
        catch( const std::logic_error& e )
        {
            res = js::Value::obj();
            const std::string w = e.what();
            res.set( w.rfind( "harness", 0 ) == 0 ? "harness_error" : "escaped", w );
        }
        catch( const std::exception& e )
        {
            res = js::Value::obj();
            res.set( "escaped", std::string( e.what() ) );
        }
        sink.str( "" );
        out << res.dump() << "\n" << std::flush;
    }
    std::cout.rdbuf( keep );
    return 0;
}
