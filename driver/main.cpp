#include "drv.h"
#include "algos.h"
#include <boost/fiber/all.hpp>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <sstream>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <fcntl.h>

namespace drv {

static std::vector< Obj * > objs;
Obj * obj( int o) { return o > 0 && o < (int)objs.size() ? objs[o] : nullptr; }

void run_ops( int f) {
    FiberProg & p = S->fibers[f];
    for ( Op const& op : p.ops) {
        bool done = exec_global( f, op);
        if ( ! done && op.o > 0 && obj( op.o)) done = obj( op.o)->exec( f, op);
        if ( ! done) { fprintf( stderr, "unknown op %s %d\n", op.name.c_str(), op.o); vrt::fault( "badscenario"); }
    }
}
void fiber_body( int f) {
    ctx_register( boost::fibers::context::active(), f);
    ev_beg( f);
    try {
        run_ops( f);
    } catch ( boost::context::detail::forced_unwind const&) { throw; }
    before_fiber_end( f);
    ev_fin( f);
    gate_done();
}
static void teardown() {
    // runs when every other thread has ended
    for ( auto it = objs.rbegin(); it != objs.rend(); ++it) { delete *it; *it = nullptr; }
    life_teardown();
    gate_teardown();
    fut_teardown();
    vrt::emit( "[\"end\",%ld,%ld,%ld]", stacks_live(), val_live(), props_live());
}
static void stuck_hook() { }

void execute() {
    for ( int t = 0; t < S->threads; ++t) {
        vrt::spawn( [t]{
            if ( 0 == t) {
                vrt::no_preempt( 1); in_setup = true;
                life_setup(); gate_setup();
                objs.push_back( nullptr);
                for ( std::size_t i = 1; i < S->objs.size(); ++i) objs.push_back( make_obj( S->objs[i], (int)i));
                in_setup = false; vrt::no_preempt( -1);
            }
            thread_setup( t);
            fiber_body( t + 1);
            thread_leave( t);
        });
    }
    int r = vrt::spawn( []{ teardown(); });
    vrt::wait_all_others( r);
    vrt::on_stuck( stuck_hook);
    vrt::run();
}

static bool parse( std::istream & in, Scenario & s) {
    std::string line; bool got = false;
    while ( std::getline( in, line)) {
        std::istringstream is( line); std::string k; is >> k;
        if ( k.empty() || k[0] == '#') continue;
        if ( k == "S") { s = Scenario(); s.objs.resize( 1); s.fibers.resize( 1); got = true; is >> s.id >> s.threads; }
        else if ( k == "A") { std::string a; while ( is >> a) s.algos.push_back( a); }
        else if ( k == "O") { ObjDecl d; is >> d.kind >> d.a >> d.b; s.objs.push_back( d); }
        else if ( k == "Q") { int x; while ( is >> x) s.script.push_back( x); }
        else if ( k == "C") {
            is >> s.cfg.seed >> s.cfg.strategy >> s.cfg.p_sync >> s.cfg.p_plain >> s.cfg.p_time >> s.cfg.p_spur >> s.cfg.pct_depth >> s.cfg.pct_len >> s.cfg.tick_per_now;
            int se = 0; if ( is >> se) s.sched_events = se != 0;
        }
        else if ( k == "F") {
            FiberProg p; std::string w; Op op; int n = 0; 
            auto flush = [&]{ if ( n) p.ops.push_back( op); op = Op(); n = 0; };
            while ( is >> w) {
                if ( w == ";") flush();
                else if ( n == 0) { op.name = w; n = 1; }
                else { int v = atoi( w.c_str()); if ( n == 1) op.o = v; else if ( n == 2) op.a = v; else op.b = v; ++n; }
            }
            flush();
            s.fibers.push_back( p);
        }
        else if ( k == "E") return true;
    }
    return got;
}
}

using namespace drv;
int main( int argc, char ** argv) {
    if ( argc < 3) { fprintf( stderr, "usage: drv SCENARIOS OUT\n"); return 2; }
    std::ifstream in( argv[1]);
    FILE * out = fopen( argv[2], "w");
    if ( ! in || ! out) return 2;
    const std::size_t cap = std::size_t( 4) << 20;
    vrt::Buffer * buf = (vrt::Buffer*)mmap( nullptr, sizeof( vrt::Buffer) + cap, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
    Scenario s; int faults = 0;
    while ( parse( in, s)) {
        S = & s;
        buf->finished = 0; buf->len = 0;
        fflush( out);
        pid_t pid = fork();
        if ( 0 == pid) {
            struct rlimit rl; rl.rlim_cur = rl.rlim_max = 0; setrlimit( RLIMIT_CORE, & rl);
            vrt::init( s.cfg, buf, cap - 1024);
            vrt::crash_handlers();
            struct itimerval it; memset( & it, 0, sizeof it); it.it_value.tv_sec = 15; setitimer( ITIMER_VIRTUAL, & it, nullptr);
            execute();
            buf->finished = buf->finished ? buf->finished : 1;
            _exit( 0);
        }
        int st = 0; waitpid( pid, & st, 0);
        if ( 0 == buf->finished) {
            // ended without an orderly end
            buf->len += sprintf( buf->data + buf->len, "[\"x\",\"died\",%d]\n", WIFSIGNALED( st) ? WTERMSIG( st) : -WEXITSTATUS( st));
            buf->finished = 3;
        }
        fprintf( out, "{\"id\":%ld,\"fin\":%u,\"ovf\":%u,\"steps\":%llu,\"sw\":%llu,\"pre\":%llu,\"tj\":%llu,\"dig\":\"%llx\",\"ev\":[", s.id, buf->finished, buf->overflow,
            (unsigned long long)buf->steps, (unsigned long long)buf->switches, (unsigned long long)buf->preemptions, (unsigned long long)buf->timejumps, (unsigned long long)buf->digest);
        bool first = true; char * p = buf->data, * e = buf->data + buf->len;
        while ( p < e) { char * q = (char*)memchr( p, '\n', e - p); if ( ! q) break; if ( ! first) fputc( ',', out); first = false; fwrite( p, 1, q - p, out); p = q + 1; }
        fprintf( out, "]}\n");
        // the library is broken for good: some executions are enough to show it
        if ( buf->finished >= 3 && ++faults >= 6) break;
    }
    fclose( out);
    return 0;
}
