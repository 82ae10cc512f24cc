// DocumentManager scripts, and core document parse / print / convert.
#include "reflect.h"
#include "ops.h"
#include "mx/core/Document.h"
#include "ezxml/XFactory.h"
#include <sstream>
#include <fstream>
#include <cstdio>
#include <unistd.h>

using namespace mx::api;

static std::map<int, std::shared_ptr<ScoreData>>& kept() { thread_local std::map<int, std::shared_ptr<ScoreData>> k; return k; }

// One call on the manager. "id" is a literal id, "ref" the index of an earlier step whose returned id is meant.
js::Value dmStep( const js::Value& s, const std::vector<js::Value>& done, std::map<int, mx::core::DocumentPtr>& handles )
{
    auto& dm = DocumentManager::getInstance();
    const auto& f = s.at( "f" ).str();
    auto r = js::Value::obj();
    auto id = [&]() -> int
    {
        if( s.has( "ref" ) )
        {
            auto p = done.at( s.at( "ref" ).num() ).find( "id" );
            return ( p ? p->num() : -999 ) + ( s.has( "plus" ) ? s.at( "plus" ).num() : 0 );
        }
        return s.at( "id" ).num();
    };
    try
    {
        if( f == "createStream" ) { std::istringstream is( s.at( "xml" ).str() ); r.set( "id", dm.createFromStream( is ) ); }
        else if( f == "createFile" )
        {
            if( s.has( "path" ) ) r.set( "id", dm.createFromFile( s.at( "path" ).str() ) );
            else
            {
                const std::string path = "in" + std::to_string( ::gettid() ) + ".xml";
                { std::ofstream os( path ); os << s.at( "xml" ).str(); }
                struct Rm { std::string p; ~Rm() { std::remove( p.c_str() ); } } rm{ path };
                r.set( "id", dm.createFromFile( path ) );
            }
        }
        else if( f == "createScore" )
        {
            ScoreData sc; refl::fromJson( s.at( "score" ), sc );
            const ScoreData before = sc;
            r.set( "id", dm.createFromScore( sc ) );
            r.set( "argSame", refl::toJson( before ) == refl::toJson( sc ) );
        }
        else if( f == "createFromGet" )   // read a stored document and store the result again
        {
            auto sc = dm.getData( id() );
            r.set( "id", dm.createFromScore( sc ) );
        }
        else if( f == "get" ) { r.set( "score", refl::toJson( dm.getData( id() ) ) ); }
        else if( f == "write" ) { std::ostringstream os; dm.writeToStream( id(), os ); r.set( "xml", os.str() ); }
        else if( f == "getKeep" )   // read a document and keep the score
        {
            auto sc = std::make_shared<ScoreData>( dm.getData( id() ) );
            kept()[s.at( "h" ).num()] = sc;
            r.set( "score", refl::toJson( *sc ) );
        }
        else if( f == "kept" ) { auto sc = kept()[s.at( "h" ).num()]; if( sc ) r.set( "score", refl::toJson( *sc ) ); else r.set( "err", "not kept" ); }
        else if( f == "writeFile" )
        {
            const std::string path = "out" + std::to_string( ::gettid() ) + ".xml";
            struct Rm { std::string p; ~Rm() { std::remove( p.c_str() ); } } rm{ path };
            dm.writeToFile( id(), path );
            std::ifstream in( path );
            if( in ) { std::stringstream ss; ss << in.rdbuf(); r.set( "xml", ss.str() ); } else r.set( "absent", true );
        }
        else if( f == "reparse" )   // write the document, read the text back in as a new document
        {
            std::ostringstream os; dm.writeToStream( id(), os );
            std::istringstream is( os.str() );
            r.set( "id", dm.createFromStream( is ) );
        }
        else if( f == "destroy" ) { dm.destroyDocument( id() ); r.set( "ok", true ); }
        else if( f == "uid" ) { r.set( "uid", dm.getUniqueId() ); }
        else if( f == "hold" ) { auto h = dm.getDocument( id() ); handles[s.at( "h" ).num()] = h; r.set( "null", h == nullptr ); }
        else if( f == "handleWrite" )
        {
            auto h = handles[s.at( "h" ).num()];
            if( !h ) r.set( "null", true );
            else { std::ostringstream os; h->toStream( os ); r.set( "core", os.str() ); }
        }
        else if( f == "handleSame" )  // do two lookups / a handle and a lookup give the same object?
        {
            auto h = handles[s.at( "h" ).num()];
            r.set( "same", h == dm.getDocument( id() ) );
        }
        else if( f == "handleConvert" ) { auto h = handles[s.at( "h" ).num()]; if( h ) h->convertContents(); r.set( "ok", true ); }
        else if( f == "kind" )
        {
            auto h = dm.getDocument( id() );
            r.set( "kind", !h ? "none" : h->getChoice() == mx::core::DocumentChoice::partwise ? "partwise" : "timewise" );
        }
        else throw std::logic_error( "harness: unknown dm step " + f );
    }
    catch( const std::logic_error& e )
    {
        if( std::string( e.what() ).rfind( "harness", 0 ) == 0 ) throw;
        r.set( "err", std::string( e.what() ) );
    }
    catch( const std::exception& e ) { r.set( "err", std::string( e.what() ) ); }
    catch( ... ) { r.set( "err", "non-standard exception" ); }
    return r;
}

static js::Value opDm( const js::Value& j )
{
    std::vector<js::Value> done;
    std::map<int, mx::core::DocumentPtr> handles;
    kept().clear();
    auto out = js::Value::arr();
    for( auto& s : j.at( "script" ).a ) { done.push_back( dmStep( s, done, handles ) ); out.push( done.back() ); }
    // leave the manager as it was found
    if( !j.has( "keep" ) )
        for( auto& d : done ) if( auto p = d.find( "id" ) ) DocumentManager::getInstance().destroyDocument( p->num() );
    auto r = js::Value::obj();
    r.set( "r", out );
    return r;
}
static RegisterOp r1{ "dm", opDm };

// core: parse text to the typed element tree, print it; "convert": n conversions, printing after each.
static js::Value opCore( const js::Value& j )
{
    auto r = js::Value::obj();
    try
    {
        auto x = ::ezxml::XFactory::makeXDoc();
        std::istringstream is( j.at( "xml" ).str() );
        x->loadStream( is );
        auto d = mx::core::makeDocument();
        std::stringstream msg;
        const bool ok = d->fromXDoc( msg, *x );
        r.set( "ok", ok );
        r.set( "msg", msg.str() );
        auto outs = js::Value::arr();
        { std::ostringstream os; d->toStream( os ); outs.push( os.str() ); }
        const int n = j.has( "convert" ) ? j.at( "convert" ).num() : 0;
        for( int k = 0; k < n; ++k )
        {
            d->convertContents();
            std::ostringstream os; d->toStream( os ); outs.push( os.str() );
        }
        r.set( "out", outs );
        if( j.has( "again" ) )
        {
            auto x2 = ::ezxml::XFactory::makeXDoc();
            std::istringstream is2( outs.a.back().s );
            x2->loadStream( is2 );
            auto d2 = mx::core::makeDocument();
            std::stringstream m2;
            r.set( "ok2", d2->fromXDoc( m2, *x2 ) );
            std::ostringstream os; d2->toStream( os );
            r.set( "again", os.str() );
        }
    }
    catch( const std::logic_error& e )
    {
        if( std::string( e.what() ).rfind( "harness", 0 ) == 0 ) throw;
        r.set( "err", std::string( e.what() ) );
    }
    catch( const std::exception& e ) { r.set( "err", std::string( e.what() ) ); }
    return r;
}
static RegisterOp r2{ "core", opCore };

// the default values of every api struct (the projection in tools/ needs them)
template<class T> static void def( js::Value& v, const char* n ) { v.set( n, refl::fullJson( refl::make<T>() ) ); }
static js::Value opDefaults( const js::Value& )
{
    auto v = js::Value::obj();
#define D( T ) def<T>( v, #T )
    D( ScoreData ); D( PartData ); D( MeasureData ); D( StaffData ); D( VoiceData ); D( NoteData ); D( DirectionData );
    D( PitchData ); D( DurationData ); D( BarlineData ); D( ClefData ); D( KeyData ); D( TimeSignatureData ); D( MarkData );
    D( PartGroupData ); D( LayoutData ); D( WordsData ); D( WedgeStart ); D( WedgeStop ); D( SpannerStart ); D( SpannerStop );
    D( TupletStart ); D( TupletStop ); D( CurveStart ); D( CurveStop ); D( ChordData ); D( TempoData ); D( PrintData ); D( PositionData );
    D( TransposeData ); D( InstrumentData ); D( MidiData ); D( EncodingData ); D( DefaultsData ); D( SystemData ); D( PageData );
#undef D
    return v;
}
static RegisterOp r3{ "defaults", opDefaults };
