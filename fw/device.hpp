// a device program (NAME.elf in PBT_TMP) in the simulator, with access to its mailbox variables
#ifndef DEVICE_HPP
#define DEVICE_HPP
#include "fw/avr.hpp"
#include "fw/pbt.hpp"

struct Device
{
    avr::Image image;
    avr::Cpu cpu;
    std::uint8_t fresh[0x900];
    std::string name;

    explicit Device( std::string const & n )
    : image( avr::Image::load( std::string( std::getenv( "PBT_TMP" ) ? std::getenv( "PBT_TMP" ) : "." ) + "/" + n + ".elf" ) ), cpu( image ), name( n )
    {
        cpu.boot();
        // memory that has no defined value at start-up: not zero
        for ( std::uint32_t a = image.at( "_end" ); a < 0x8f0; ++a ) cpu.data[a] = 0xa5;
        std::memcpy( fresh, cpu.data, sizeof fresh );
    }
    // as after start-up
    void reset() { std::memcpy( cpu.data, fresh, sizeof fresh ); cpu.delay_irq = 0; cpu.on_read = nullptr; cpu.on_write = nullptr; cpu.on_step = nullptr; cpu.on_data = nullptr; }

    template< typename T > void put( char const * sym, T v, int index = 0 ) { std::memcpy( cpu.data + image.at( sym ) + index * sizeof v, &v, sizeof v ); }
    template< typename T > T get( char const * sym, int index = 0 ) { T v; std::memcpy( &v, cpu.data + image.at( sym ) + index * sizeof v, sizeof v ); return v; }

    // call a function; a fault of the device code is a failure of the case
    void call( pbt::Case & c, std::string const & f, std::vector<avr::Cpu::Arg> const & a = {} )
    {
        try { cpu.call( image.at( f ), a ); }
        catch ( avr::Fault const & e ) { c.fail( name + ": " + f + ": " + e.what() ); }
    }
};

#endif
