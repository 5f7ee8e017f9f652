// the ports of the microcontroller that the timing program names, for building it on the desktop
#ifndef HOST_AVR_IO_H
#define HOST_AVR_IO_H
#include <stdint.h>
inline unsigned char volatile DDRB, PORTB;
#define PB5 5
#endif
