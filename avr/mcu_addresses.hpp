// registers named by address only: A( id, library constant, address )
A( sreg, core::sreg_addr, 0x5f ) A( spl, core::spl_addr, 0x5d ) A( sph, core::sph_addr, 0x5e ) A( gpreg, core::gpreg_base, 0x00 )
A( osccal, clock::reg::osccal_addr, 0x66 ) A( clkpr, clock::reg::clkpr_addr, 0x61 )
A( smcr, power::reg::smcr_addr, 0x53 ) A( mcusr, power::reg::mcusr_addr, 0x54 ) A( prr, power::reg::prr_addr, 0x64 )
A( mcucr, reset::reg::mcucr_addr, 0x55 ) A( wdtcsr, reset::reg::wdtcsr_addr, 0x60 )
A( tc0_gtccr, tc0::reg::gtccr_addr, 0x43 ) A( tcp_gtccr, tcp::reg::gtccr_addr, 0x43 ) A( tc2_gtccr, tc2::reg::gtccr_addr, 0x43 )
A( tccr2a, tc2::reg::tccr2a_addr, 0xb0 ) A( tccr2b, tc2::reg::tccr2b_addr, 0xb1 ) A( tcnt2, tc2::reg::tcnt2_addr, 0xb2 ) A( ocr2a, tc2::reg::ocr2a_addr, 0xb3 ) A( ocr2b, tc2::reg::ocr2b_addr, 0xb4 )
A( timsk2, tc2::reg::timsk2_addr, 0x70 ) A( tifr2, tc2::reg::tifr2_addr, 0x37 ) A( assr, tc2::reg::assr_addr, 0xb6 )
A( adc_didr1, adc::reg::addr_didr1, 0x7f ) A( tifr1, tc1::reg::tifr1_addr, 0x36 ) A( tccr1c, tc1::reg::tccr1c_addr, 0x82 )
A( tcnt1l, tc1::reg::tcnt1l_addr, 0x84 ) A( tcnt1h, tc1::reg::tcnt1h_addr, 0x85 ) A( icr1l, tc1::reg::icr1l_addr, 0x86 ) A( icr1h, tc1::reg::icr1h_addr, 0x87 )
A( ocr1al, tc1::reg::ocr1al_addr, 0x88 ) A( ocr1ah, tc1::reg::ocr1ah_addr, 0x89 ) A( ocr1bl, tc1::reg::ocr1bl_addr, 0x8a ) A( ocr1bh, tc1::reg::ocr1bh_addr, 0x8b )
A( pinB, gpio<port::B>::pin_addr, 0x23 ) A( ddrC, gpio<port::C>::ddr_addr, 0x27 ) A( portD, gpio<port::D>::port_addr, 0x2b )
