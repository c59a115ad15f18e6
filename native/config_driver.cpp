// Loads one configuration file per line of the standard input (a path) with a
// fresh configuration object and prints what it holds.
#include <src/config.hpp>
#include <iostream>
#include <string>
#include <unistd.h>
#include <fcntl.h>

int main() {
    cybozu::logger::set_threshold(cybozu::severity::error);
    for( std::string p; std::getline(std::cin, p); ) {
        try {
            yrmcds::config c;
            if( p != "-" ) c.load(p);
            std::cout << "OK"
                << "\tvirtual_ip=" << c.vip().str()
                << "\tport=" << c.port()
                << "\trepl_port=" << c.repl_port()
                << "\tbind_ip=";
            const char* sep = "";
            for( auto& a: c.bind_ip() ) {
                std::cout << sep << a.str();
                sep = " ";
            }
            const char* th = "?";
            switch( c.threshold() ) {
            case cybozu::severity::error: th = "error"; break;
            case cybozu::severity::warning: th = "warning"; break;
            case cybozu::severity::info: th = "info"; break;
            case cybozu::severity::debug: th = "debug"; break;
            }
            std::cout
                << "\tmax_connections=" << c.max_connections()
                << "\ttemp_dir=" << c.tempdir()
                << "\tuser=" << c.user()
                << "\tgroup=" << c.group()
                << "\tlog.threshold=" << th
                << "\tlog.file=" << c.logfile()
                << "\tbuckets=" << c.buckets()
                << "\tmax_data_size=" << c.max_data_size()
                << "\theap_data_limit=" << c.heap_data_limit()
                << "\tmemory_limit=" << c.memory_limit()
                << "\trepl_buffer_size=" << c.repl_bufsize()
                << "\tinitial_repl_sleep_delay_usec=" << c.initial_repl_sleep_delay_usec()
                << "\tsecure_erase=" << (c.secure_erase() ? "true" : "false")
                << "\tlock_memory=" << (c.lock_memory() ? "true" : "false")
                << "\tworkers=" << c.workers()
                << "\tgc_interval=" << c.gc_interval()
                << "\tslave_timeout=" << c.slave_timeout()
                << "\tcounter.enable=" << (c.counter().enable() ? "true" : "false")
                << "\tcounter.port=" << c.counter().port()
                << "\tcounter.max_connections=" << c.counter().max_connections()
                << "\tcounter.buckets=" << c.counter().buckets()
                << "\tcounter.stat_interval=" << c.counter().stat_interval()
                << "\n" << std::flush;
        } catch( const std::exception& e ) {
            std::string w = e.what();
            for( auto& ch: w ) if( ch == '\n' || ch == '\t' ) ch = ' ';
            std::cout << "ERR\t" << w << "\n" << std::flush;
        }
    }
}
