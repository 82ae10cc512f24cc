// Runs calls of several threads on the registry under many schedules, each in a process of its own, and tells the
// histories that came about: who called what, and what came back, in order.
#include "reflect.h"
#include "ops.h"
#include "sched_rt.h"
#include "mx/core/Elements.h"
#include <algorithm>
#include <map>
#include <memory>
#include <poll.h>
#include <random>
#include <set>
#include <signal.h>
#include <sys/wait.h>
#include <malloc.h>
#include <unistd.h>
#include <fcntl.h>
#include <iostream>

js::Value dmStep( const js::Value& s, const std::vector<js::Value>& done, std::map<int, mx::core::DocumentPtr>& handles );

namespace
{
    using namespace mx::core;

    // elements that make their parts when they are first asked for them: asked twice they give the same part
    struct Lazy
    {
        std::vector<std::function<std::shared_ptr<void>()>> get;
        std::vector<std::shared_ptr<void>> seen;    // kept, so that no two have the same address
        long which( const std::shared_ptr<void>& p )
        {
            for( size_t i = 0; i < seen.size(); ++i ) if( seen[i].get() == p.get() ) return (long)i + 1;
            seen.push_back( p );
            return (long)seen.size();
        }
    };
    Lazy* makeLazy()
    {
        auto* l = new Lazy{};
#define GET( o, g ) l->get.push_back( [o] { return std::static_pointer_cast<void>( o->get##g() ); } );
        auto note = makeNote();
        GET( note, Attributes ) GET( note, NoteChoice ) GET( note, Instrument ) GET( note, EditorialVoiceGroup ) GET( note, Type ) GET( note, Accidental )
        GET( note, TimeModification ) GET( note, Stem ) GET( note, Notehead ) GET( note, NoteheadText ) GET( note, Staff ) GET( note, Play )
        auto full = makeFullNoteGroup();
        GET( full, FullNoteTypeChoice )
        auto type = makeFullNoteTypeChoice();
        GET( type, Pitch ) GET( type, Unpitched ) GET( type, Rest )
        auto data = makeMusicDataChoice();
        GET( data, Note ) GET( data, Backup ) GET( data, Forward ) GET( data, Direction ) GET( data, Properties ) GET( data, Harmony ) GET( data, FiguredBass )
        GET( data, Print ) GET( data, Sound ) GET( data, Barline ) GET( data, Grouping ) GET( data, Link ) GET( data, Bookmark )
        auto measure = makePartwiseMeasure();
        GET( measure, Attributes )
        return l;
    }

    void once( const js::Value& q, const sched::Plan& plan, int fd )
    {
        std::cout.rdbuf( nullptr );
        mallopt( M_PERTURB, 0xA5 );
        auto* lazy = q.has( "lazy" ) ? makeLazy() : nullptr;
        std::vector<js::Value> setup;
        std::map<int, DocumentPtr> handles;
        for( auto& s : q.at( "setup" ).a ) setup.push_back( dmStep( s, setup, handles ) );
        auto events = std::make_shared<js::Array>();
        events->reserve( 4096 );
        std::vector<std::function<void()>> work;
        auto& ts = q.at( "threads" ).a;
        std::vector<std::map<int, DocumentPtr>> own( ts.size(), handles );
        std::vector<std::vector<js::Value>> done( ts.size(), setup );
        for( size_t t = 0; t < ts.size(); ++t ) work.push_back( [&, t]
        {
            for( size_t i = 0; i < ts[t].a.size(); ++i )
            {
                auto e = std::make_unique<js::Value>();
                auto* s = (const js::Value*)nullptr;
                int cell = 0;
                {
                    sched::Quiet q;
                    *e = js::Value::obj();
                    e->set( "e", "call" ); e->set( "t", t + 1 ); e->set( "i", i + 1 );
                    events->push_back( *e );
                    s = &ts[t].a[i];
                    if( s->at( "f" ).str() == "lazy" ) cell = s->at( "cell" ).num();
                }
                sched::mark();
                auto r = js::Value::obj();
                if( cell )
                {
                    auto p = lazy->get[cell - 1]();
                    sched::Quiet q;
                    r.set( "part", (long long)lazy->which( p ) );
                }
                else r = dmStep( *s, done[t], own[t] );
                sched::mark();
                sched::Quiet q;
                done[t].push_back( r );
                e->set( "e", "ret" ); e->set( "r", r );
                events->push_back( *e );
            }
        } );
        auto res = sched::run( work, plan );
        auto o = js::Value::obj();
        auto before = js::Value::arr(); for( auto& x : setup ) before.push( x );
        o.set( "setup", before );
        js::Value ev = js::Value::arr(); ev.a = *events;
        o.set( "events", ev );
        // afterwards, one after another
        if( !res.stuck )
        {
            auto after = js::Value::arr();
            std::vector<js::Value> d = setup;
            std::map<int, DocumentPtr> h = handles;
            for( auto& s : q.at( "after" ).a ) { auto r = dmStep( s, d, h ); d.push_back( r ); after.push( r ); }
            o.set( "after", after );
        }
        o.set( "stuck", res.stuck );
        auto sum = js::Value::obj();
        auto pts = js::Value::arr(); for( auto x : res.points ) pts.push( (long long)x ); sum.set( "points", pts );
        auto meets = js::Value::arr();
        for( auto& x : res.meets ) { auto l = js::Value::arr(); for( auto y : x ) l.push( (long long)y ); meets.push( l ); }
        sum.set( "meets", meets );
        std::string text = sum.dump() + "\n" + o.dump() + "\n";
        for( size_t k = 0; k < text.size(); )
        {
            auto w = ::write( fd, text.data() + k, text.size() - k );
            if( w <= 0 ) break;
            k += (size_t)w;
        }
        ::_exit( 0 );
    }

    struct Answer { std::string history; std::vector<long> points; std::vector<std::vector<long>> meets; bool broken = false; };

    // one schedule; where its threads met, and its history
    Answer attempt( const js::Value& q, const sched::Plan& plan )
    {
        int p[2];
        if( pipe( p ) ) throw std::logic_error( "harness: pipe" );
        const auto pid = fork();
        if( pid < 0 ) throw std::logic_error( "harness: fork" );
        if( pid == 0 )
        {
            ::close( p[0] );
            alarm( 60 );
            // an abort or an escaped error is seen by its absence of an answer
            int null = ::open( "/dev/null", O_WRONLY ); ::dup2( null, 2 );
            try { once( q, plan, p[1] ); } catch( const std::logic_error& e ) { auto w = "harness:" + std::string( e.what() ); (void)!::write( p[1], w.data(), w.size() ); } catch( ... ) {}
            ::_exit( 3 );
        }
        ::close( p[1] );
        std::string text;
        char buf[65536];
        for( ;; )
        {
            auto r = ::read( p[0], buf, sizeof buf );
            if( r <= 0 ) break;
            text.append( buf, (size_t)r );
        }
        ::close( p[0] );
        int st = 0;
        waitpid( pid, &st, 0 );
        Answer a;
        if( text.empty() || text.back() != '\n' )
        {
            if( text.rfind( "harness:harness", 0 ) == 0 ) throw std::logic_error( text.substr( 8 ) );
            a.history = WIFSIGNALED( st ) ? "\"signal " + std::to_string( WTERMSIG( st ) ) + "\"" : "\"exit\"";
            a.broken = true;
            return a;
        }
        text.pop_back();
        const auto nl = text.find( '\n' );
        a.history = text.substr( nl + 1 );
        auto sum = js::parse( text.substr( 0, nl ) );
        for( auto& x : sum.at( "points" ).a ) a.points.push_back( x.num() );
        for( auto& x : sum.at( "meets" ).a ) { a.meets.emplace_back(); for( auto& y : x.a ) a.meets.back().push_back( y.num() ); }
        return a;
    }

    js::Value explore( const js::Value& q )
    {
        const int n = (int)q.at( "threads" ).a.size();
        const int singles = q.at( "singles" ).num(), randoms = q.at( "randoms" ).num();
        std::mt19937 rng( (unsigned)q.at( "seed" ).num() );
        auto below = [&]( long m ) { return (long)( rng() % (unsigned long)std::max( 1L, m ) ); };
        std::map<std::string, std::pair<std::string, long>> found;   // history -> a plan that gave it, how many did
        long runs = 0, broken = 0;
        auto go = [&]( const sched::Plan& p ) -> Answer
        {
            auto a = attempt( q, p );
            ++runs;
            auto d = js::Value::obj();
            auto o = js::Value::arr(); for( int t : p.order ) o.push( t ); d.set( "order", o );
            auto c = js::Value::arr();
            for( auto& x : p.changes ) { auto y = js::Value::arr(); y.push( x.from ); y.push( (long long)x.at ); y.push( x.to ); c.push( y ); }
            d.set( "changes", c );
            auto& f = found[a.history];
            if( !f.second++ ) f.first = d.dump();
            if( a.broken ) ++broken;
            return a;
        };
        sched::Plan p;
        p.everything = !q.has( "registry" );
        std::vector<std::set<long>> meet( n );
        std::vector<long> len( n, 0 );
        if( q.has( "plan" ) )
        {
            for( auto& x : q.at( "plan" ).at( "order" ).a ) p.order.push_back( x.num() );
            for( auto& x : q.at( "plan" ).at( "changes" ).a ) p.changes.push_back( { x.a[0].num(), x.a[1].num(), x.a[2].num() } );
            go( p );
        }
        else
        {
            std::vector<int> ids( n ); for( int i = 0; i < n; ++i ) ids[i] = i;
            std::vector<std::vector<int>> orders;
            do orders.push_back( ids ); while( std::next_permutation( ids.begin(), ids.end() ) && orders.size() < 6 );
            p.log = true;
            for( auto& o : orders )
            {
                p.order = o;
                auto a = go( p );
                for( size_t t = 0; t < a.points.size(); ++t ) len[t] = std::max( len[t], a.points[t] );
                for( size_t t = 0; t < a.meets.size(); ++t ) meet[t].insert( a.meets[t].begin(), a.meets[t].end() );
            }
            p.log = false;
            // one change of thread: at the points where threads meet, all of them or evenly over them
            std::vector<std::pair<size_t, sched::Change>> one;
            for( size_t k = 0; k < orders.size(); ++k )
                for( int f = 0; f < n; ++f ) for( int t = 0; t < n; ++t ) if( t != f && ( f == orders[k][0] || n > 2 ) )
                    for( long at : meet[f] ) one.push_back( { k, { f, at, t } } );
            if( (int)one.size() > singles ) { std::shuffle( one.begin(), one.end(), rng ); one.resize( singles ); }
            for( auto& x : one ) { if( broken > 5 ) break; p.order = orders[x.first]; p.changes = { x.second }; go( p ); }
            // several: where threads meet, now and then anywhere
            std::vector<std::vector<long>> at; for( auto& m : meet ) at.emplace_back( m.begin(), m.end() );
            for( int k = 0; k < randoms && broken <= 5; ++k )
            {
                p.order = orders[below( (long)orders.size() )]; p.changes.clear();
                const int c = 2 + (int)below( 4 );
                for( int i = 0; i < c; ++i )
                {
                    const int f = (int)below( n ), t = (int)( f + 1 + below( n - 1 ) ) % n;
                    p.changes.push_back( { f, at[f].empty() || !below( 6 ) ? 1 + below( len[f] ) : at[f][below( (long)at[f].size() )], t } );
                }
                go( p );
            }
        }
        auto r = js::Value::obj();
        r.set( "runs", (long long)runs );
        auto pts = js::Value::arr(), ms = js::Value::arr();
        for( int t = 0; t < n; ++t ) { pts.push( (long long)len[t] ); ms.push( (long long)meet[t].size() ); }
        r.set( "points", pts ); r.set( "meets", ms );
        auto l = js::Value::arr();
        for( auto& x : found )
        {
            auto o = js::Value::obj();
            o.set( "history", js::parse( x.first ) );
            o.set( "plan", js::parse( x.second.first ) );
            o.set( "times", (long long)x.second.second );
            l.push( o );
        }
        r.set( "histories", l );
        return r;
    }
    RegisterOp reg{ "explore", explore };
}
