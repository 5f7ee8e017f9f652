// Stand-in for a tool of AVR-GCC: writes what it was asked to do, with the contents of its inputs, into its output.
// In a file: "tool NAME", "arg TEXT" per argument, "input NAME LENGTH" followed by the contents.  A missing input is an error.
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
int main( int n, char * v[] )
{
    std::string me = v[0]; me = me.substr( me.rfind( '/' ) + 1 );
    std::vector<std::string> a( v + 1, v + n ), in; std::string out;
    std::ostringstream os; os << "tool " << me << "\n";
    for ( auto & s : a ) os << "arg " << s << "\n";
    bool objcopy = me == "avr-objcopy";
    for ( std::size_t i = 0; i < a.size(); ++i )
    {
        if ( a[i] == "-o" && i + 1 < a.size() ) { out = a[++i]; continue; }
        if ( objcopy && ( a[i] == "-O" || a[i] == "-j" || a[i] == "-R" ) ) { ++i; continue; }
        if ( objcopy && a[i] == "--change-section-lma" ) { ++i; continue; }
        if ( !objcopy && ( a[i] == "-MF" || a[i] == "-MT" || a[i] == "-MQ" ) ) { ++i; continue; }
        if ( a[i].empty() || a[i][0] == '-' || a[i] == "<" || me == "avrdude" ) continue;
        in.push_back( a[i] );
    }
    if ( objcopy && in.size() == 2 ) { out = in[1]; in.pop_back(); }
    for ( auto & f : in )
    {
        std::ifstream s( f, std::ios::binary );
        if ( !s ) { std::cerr << me << ": cannot open " << f << "\n"; return 1; }
        std::ostringstream c; c << s.rdbuf();
        os << "input " << f << " " << c.str().size() << "\n" << c.str() << "\n";
    }
    if ( char const * log = std::getenv( "STANDIN_LOG" ) ) std::ofstream( log, std::ios::app ) << os.str() << "end\n";
    if ( !out.empty() && !( std::ofstream( out, std::ios::binary ) << os.str() ) ) { std::cerr << me << ": cannot write " << out << "\n"; return 1; }
    return 0;
}
