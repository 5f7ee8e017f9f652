// The documented register map of the ATmega328P, as far as the library names it (from the datasheet, by hand):
// F( id, library type, data-space address, high bit, low bit, kind )
// kinds: W read/write, R read only, E read/write whole register of enumeration type, C cleared by writing one,
//        I input pin (read only here: writing toggles the output), T 16-bit timer register with shared temporary byte,
//        A 16-bit result that is locked while being read
#ifdef F
#define BITS8( id, type, addr, kind ) \
    F( id##_0, type<0>, addr, 0, 0, kind ) F( id##_1, type<1>, addr, 1, 1, kind ) F( id##_2, type<2>, addr, 2, 2, kind ) F( id##_3, type<3>, addr, 3, 3, kind ) \
    F( id##_4, type<4>, addr, 4, 4, kind ) F( id##_5, type<5>, addr, 5, 5, kind ) F( id##_6, type<6>, addr, 6, 6, kind ) F( id##_7, type<7>, addr, 7, 7, kind )
#define PIN( X, n, a ) \
    F( p##X##n##_dir, gpio<port::X>::p<n>::dir, a + 1, n, n, W ) F( p##X##n##_inp, gpio<port::X>::p<n>::inp, a, n, n, I ) F( p##X##n##_out, gpio<port::X>::p<n>::out, a + 2, n, n, W )
#define PORT( X, a ) \
    F( pin##X, gpio<port::X>::pin, a, 7, 0, I ) F( ddr##X, gpio<port::X>::ddr, a + 1, 7, 0, W ) F( port##X, gpio<port::X>::port, a + 2, 7, 0, W ) \
    PIN( X, 0, a ) PIN( X, 1, a ) PIN( X, 2, a ) PIN( X, 3, a ) PIN( X, 4, a ) PIN( X, 5, a ) PIN( X, 6, a ) PIN( X, 7, a )

// EEPROM, general purpose I/O
F( eear, mem::reg::eear, 0x41, 15, 0, E )
F( eedr, mem::reg::eedr, 0x40, 7, 0, E )
F( eecr, mem::reg::eecr::whole, 0x3f, 7, 0, W )
F( eepm, mem::reg::eecr::eepm, 0x3f, 5, 4, W )
F( eerie, mem::reg::eecr::eerie, 0x3f, 3, 3, W )
F( eempe, mem::reg::eecr::eempe, 0x3f, 2, 2, W )
F( eepe, mem::reg::eecr::eepe, 0x3f, 1, 1, W )
F( eere, mem::reg::eecr::eere, 0x3f, 0, 0, W )
F( gpior0, mem::gpio<mem::r0>::whole, 0x3e, 7, 0, W ) BITS8( gpior0, mem::gpio<mem::r0>::bit, 0x3e, W )
F( gpior1, mem::gpio<mem::r1>::whole, 0x4a, 7, 0, W ) BITS8( gpior1, mem::gpio<mem::r1>::bit, 0x4a, W )
F( gpior2, mem::gpio<mem::r2>::whole, 0x4b, 7, 0, W ) BITS8( gpior2, mem::gpio<mem::r2>::bit, 0x4b, W )
// external interrupts
F( eicra, ei::eicra::whole, 0x69, 7, 0, W )
F( ics1, ei::eicra::ics1, 0x69, 3, 2, W )
F( ics0, ei::eicra::ics0, 0x69, 1, 0, W )
F( eimsk0, ei::eimsk<eint::int0>, 0x3d, 0, 0, W )
F( eimsk1, ei::eimsk<eint::int1>, 0x3d, 1, 1, W )
F( eifr0, ei::eifr<eint::int0>, 0x3c, 0, 0, C )
F( eifr1, ei::eifr<eint::int1>, 0x3c, 1, 1, C )
F( pcicr0, ei::pcicr<pcint::int0>, 0x68, 0, 0, W )
F( pcicr1, ei::pcicr<pcint::int1>, 0x68, 1, 1, W )
F( pcicr2, ei::pcicr<pcint::int2>, 0x68, 2, 2, W )
F( pcifr0, ei::pcifr<pcint::int0>, 0x3b, 0, 0, C )
F( pcifr1, ei::pcifr<pcint::int1>, 0x3b, 1, 1, C )
F( pcifr2, ei::pcifr<pcint::int2>, 0x3b, 2, 2, C )
F( pcmsk0, ei::pcmsk<ei::pcmsk0>::whole, 0x6b, 7, 0, W ) BITS8( pcmsk0, ei::pcmsk<ei::pcmsk0>::bit, 0x6b, W )
F( pcmsk1, ei::pcmsk<ei::pcmsk1>::whole, 0x6c, 7, 0, W ) BITS8( pcmsk1, ei::pcmsk<ei::pcmsk1>::bit, 0x6c, W )
F( pcmsk2, ei::pcmsk<ei::pcmsk2>::whole, 0x6d, 7, 0, W ) BITS8( pcmsk2, ei::pcmsk<ei::pcmsk2>::bit, 0x6d, W )
// ports
PORT( B, 0x23 ) PORT( C, 0x26 ) PORT( D, 0x29 )
// timer 0
F( tccr0a, tc0::reg::tccr0a::whole, 0x44, 7, 0, W )
F( com0a, tc0::reg::tccr0a::com0a, 0x44, 7, 6, W )
F( com0b, tc0::reg::tccr0a::com0b, 0x44, 5, 4, W )
F( wgm0, tc0::reg::tccr0a::wgm0, 0x44, 1, 0, W )
F( tccr0b, tc0::reg::tccr0b::whole, 0x45, 7, 0, W )
F( foc0a, tc0::reg::tccr0b::foc0a, 0x45, 7, 7, W )
F( foc0b, tc0::reg::tccr0b::foc0b, 0x45, 6, 6, W )
F( wgm02, tc0::reg::tccr0b::wgm02, 0x45, 3, 3, W )
F( cs0, tc0::reg::tccr0b::cs0, 0x45, 2, 0, W )
F( timsk0, tc0::reg::timsk0::whole, 0x6e, 7, 0, W )
F( ocie0b, tc0::reg::timsk0::ocie0b, 0x6e, 2, 2, W )
F( ocie0a, tc0::reg::timsk0::ocie0a, 0x6e, 1, 1, W )
F( toie0, tc0::reg::timsk0::toie0, 0x6e, 0, 0, W )
F( tcnt0, tc0::reg::tcnt0::whole, 0x46, 7, 0, W )
F( ocr0a, tc0::reg::ocr0a::whole, 0x47, 7, 0, W )
F( ocr0b, tc0::reg::ocr0b::whole, 0x48, 7, 0, W )
F( tifr0, tc0::reg::tifr0::whole, 0x35, 7, 0, W )
F( ocf0b, tc0::reg::tifr0::ocf0b, 0x35, 2, 2, C )
F( ocf0a, tc0::reg::tifr0::ocf0a, 0x35, 1, 1, C )
F( tov0, tc0::reg::tifr0::tov0, 0x35, 0, 0, C )
// timer 1
F( tccr1a, tc1::reg::tccr1a::whole, 0x80, 7, 0, W )
F( com1a, tc1::reg::tccr1a::com1a, 0x80, 7, 6, W )
F( com1b, tc1::reg::tccr1a::com1b, 0x80, 5, 4, W )
F( wgm1_10, tc1::reg::tccr1a::wgm1, 0x80, 1, 0, W )
F( tccr1b, tc1::reg::tccr1b::whole, 0x81, 7, 0, W )
F( icnc1, tc1::reg::tccr1b::icnc1, 0x81, 7, 7, W )
F( ices1, tc1::reg::tccr1b::ices1, 0x81, 6, 6, W )
F( wgm1_32, tc1::reg::tccr1b::wgm1, 0x81, 4, 3, W )
F( cs1, tc1::reg::tccr1b::cs1, 0x81, 2, 0, W )
F( tccr1c, tc1::reg::tccr1c::whole, 0x82, 7, 0, W )
F( foc1a, tc1::reg::tccr1c::foc1a, 0x82, 7, 7, W )
F( foc1b, tc1::reg::tccr1c::foc1b, 0x82, 6, 6, W )
F( tcnt1, tc1::reg::tcnt1::whole, 0x84, 15, 0, T )
F( tcnt1l, tc1::reg::tcnt1::lo, 0x84, 7, 0, W )
F( tcnt1h, tc1::reg::tcnt1::hi, 0x85, 7, 0, W )
F( icr1, tc1::reg::icr1::whole, 0x86, 15, 0, T )
F( icr1l, tc1::reg::icr1::lo, 0x86, 7, 0, W )
F( icr1h, tc1::reg::icr1::hi, 0x87, 7, 0, W )
F( ocr1a, tc1::reg::ocr1a::whole, 0x88, 15, 0, T )
F( ocr1al, tc1::reg::ocr1a::lo, 0x88, 7, 0, W )
F( ocr1ah, tc1::reg::ocr1a::hi, 0x89, 7, 0, W )
F( ocr1b, tc1::reg::ocr1b::whole, 0x8a, 15, 0, T )
F( ocr1bl, tc1::reg::ocr1b::lo, 0x8a, 7, 0, W )
F( ocr1bh, tc1::reg::ocr1b::hi, 0x8b, 7, 0, W )
F( timsk1, tc1::reg::timsk1::whole, 0x6f, 7, 0, W )
F( icie1, tc1::reg::timsk1::icie1, 0x6f, 5, 5, W )
F( ocie1b, tc1::reg::timsk1::ocie1b, 0x6f, 2, 2, W )
F( ocie1a, tc1::reg::timsk1::ocie1a, 0x6f, 1, 1, W )
F( toie1, tc1::reg::timsk1::toie1, 0x6f, 0, 0, W )
F( icf1, tc1::reg::tifr1::icf1, 0x36, 5, 5, C )
F( ocf1b, tc1::reg::tifr1::ocf1b, 0x36, 2, 2, C )
F( ocf1a, tc1::reg::tifr1::ocf1a, 0x36, 1, 1, C )
F( tov1, tc1::reg::tifr1::tov1, 0x36, 0, 0, C )
// prescalers
F( gtccr, tcp::reg::gtccr::whole, 0x43, 7, 0, W )
F( tsm, tcp::reg::gtccr::tsm, 0x43, 7, 7, W )
F( psrasy, tcp::reg::gtccr::psrasy, 0x43, 1, 1, W )
F( psrsync, tcp::reg::gtccr::psrsync, 0x43, 0, 0, W )
// two-wire interface
F( twbr, twi::reg::twbr, 0xb8, 7, 0, E )
F( twdr, twi::reg::twdr, 0xbb, 7, 0, E )
F( twsr, twi::reg::twsr::whole, 0xb9, 7, 0, W )
F( tws, twi::reg::twsr::tws, 0xb9, 7, 3, R )
F( twps, twi::reg::twsr::twps, 0xb9, 1, 0, W )
F( twar, twi::reg::twar::whole, 0xba, 7, 0, W )
F( twa, twi::reg::twar::twa, 0xba, 7, 1, W )
F( twgce, twi::reg::twar::twgce, 0xba, 0, 0, W )
F( twcr, twi::reg::twcr::whole, 0xbc, 7, 0, W )
F( twintc, twi::reg::twcr::twintc, 0xbc, 7, 7, C )
F( twint, twi::reg::twcr::twint, 0xbc, 7, 7, W )
F( twea, twi::reg::twcr::twea, 0xbc, 6, 6, W )
F( twsta, twi::reg::twcr::twsta, 0xbc, 5, 5, W )
F( twsto, twi::reg::twcr::twsto, 0xbc, 4, 4, W )
F( twwc, twi::reg::twcr::twwc, 0xbc, 3, 3, W )
F( twen, twi::reg::twcr::twen, 0xbc, 2, 2, W )
F( twie, twi::reg::twcr::twie, 0xbc, 0, 0, W )
F( twamr, twi::reg::twamr::whole, 0xbd, 7, 0, W )
F( twam, twi::reg::twamr::twam, 0xbd, 7, 1, W )
// analog comparator
F( acsr, ac::reg::acsr::whole, 0x50, 7, 0, W )
F( acd, ac::reg::acsr::acd, 0x50, 7, 7, W )
F( acbg, ac::reg::acsr::acbg, 0x50, 6, 6, W )
F( aco, ac::reg::acsr::aco, 0x50, 5, 5, R )
F( aci, ac::reg::acsr::aci, 0x50, 4, 4, C )
F( acie, ac::reg::acsr::acie, 0x50, 3, 3, W )
F( acic, ac::reg::acsr::acic, 0x50, 2, 2, W )
F( acis, ac::reg::acsr::acis, 0x50, 1, 0, W )
F( ac_didr1, ac::reg::didr1, 0x7f, 1, 0, W )
// ADC
F( adc, adc::reg::adc::whole, 0x78, 15, 0, A )
F( adchl, adc::reg::adc::adchl, 0x78, 15, 0, A )
F( adcl, adc::reg::adc::adcl, 0x78, 7, 0, R )
F( adch, adc::reg::adc::adch, 0x79, 7, 0, R )
F( admux, adc::reg::admux::whole, 0x7c, 7, 0, W )
F( refs, adc::reg::admux::refs, 0x7c, 7, 6, W )
F( adlar, adc::reg::admux::adlar, 0x7c, 5, 5, W )
F( mux, adc::reg::admux::mux, 0x7c, 3, 0, W )
F( adcsra, adc::reg::adcsra::whole, 0x7a, 7, 0, W )
F( aden, adc::reg::adcsra::aden, 0x7a, 7, 7, W )
F( adsc, adc::reg::adcsra::adsc, 0x7a, 6, 6, W )
F( adate, adc::reg::adcsra::adate, 0x7a, 5, 5, W )
F( adif, adc::reg::adcsra::adif, 0x7a, 4, 4, C )
F( adie, adc::reg::adcsra::adie, 0x7a, 3, 3, W )
F( adps, adc::reg::adcsra::adps, 0x7a, 2, 0, W )
F( adcsrb, adc::reg::adcsrb::whole, 0x7b, 7, 0, W )
F( acme, adc::reg::adcsrb::acme, 0x7b, 6, 6, W )
F( adts, adc::reg::adcsrb::adts, 0x7b, 2, 0, W )
F( didr0, adc::reg::didr0, 0x7e, 5, 0, W )
F( adc_didr1, adc::reg::didr1, 0x7f, 1, 0, W )
#undef BITS8
#undef PIN
#undef PORT
#endif

