// interrupt flags, cleared by writing one: G( id, read, clear, address, bit )
G( t0_a, current( tc0::interrupt::compare::flag::a{} ), clear( tc0::interrupt::compare::flag::a{} ), 0x35, 1 )
G( t0_b, current( tc0::interrupt::compare::flag::b{} ), clear( tc0::interrupt::compare::flag::b{} ), 0x35, 2 )
G( t0_overflow, current( tc0::interrupt::overflow::flag{} ), clear( tc0::interrupt::overflow::flag{} ), 0x35, 0 )
G( t1_capture, current( tc1::interrupt::capture::flag{} ), clear( tc1::interrupt::capture::flag{} ), 0x36, 5 )
G( t1_a, current( tc1::interrupt::compare::flag::a{} ), clear( tc1::interrupt::compare::flag::a{} ), 0x36, 1 )
G( t1_b, current( tc1::interrupt::compare::flag::b{} ), clear( tc1::interrupt::compare::flag::b{} ), 0x36, 2 )
G( t1_overflow, current( tc1::interrupt::overflow::flag{} ), clear( tc1::interrupt::overflow::flag{} ), 0x36, 0 )
G( int0, ei::external_int0_flag(), ei::clear_external_int0_flag(), 0x3c, 0 )
G( int1, ei::external_int1_flag(), ei::clear_external_int1_flag(), 0x3c, 1 )
G( pcint0, ei::pin_change_int0_flag(), ei::clear_pin_change_int0_flag(), 0x3b, 0 )
G( pcint1, ei::pin_change_int1_flag(), ei::clear_pin_change_int1_flag(), 0x3b, 1 )
G( pcint2, ei::pin_change_int2_flag(), ei::clear_pin_change_int2_flag(), 0x3b, 2 )
G( ac, current( ac::interrupt::flag{} ), clear( ac::interrupt::flag{} ), 0x50, 4 )
G( adc, current( adc::interrupt::flag{} ), clear( adc::interrupt::flag{} ), 0x7a, 4 )
G( twi, current( twi::interrupt::flag{} ), clear( twi::interrupt::flag{} ), 0xbc, 7 )
// the same by register field
G( f_t0_a, tc0::reg::tifr0::ocf0a::read(), tc0::reg::tifr0::ocf0a::clear(), 0x35, 1 )
G( f_t0_b, tc0::reg::tifr0::ocf0b::read(), tc0::reg::tifr0::ocf0b::clear(), 0x35, 2 )
G( f_t0_overflow, tc0::reg::tifr0::tov0::read(), tc0::reg::tifr0::tov0::clear(), 0x35, 0 )
G( f_t1_capture, tc1::reg::tifr1::icf1::read(), tc1::reg::tifr1::icf1::clear(), 0x36, 5 )
G( f_t1_a, tc1::reg::tifr1::ocf1a::read(), tc1::reg::tifr1::ocf1a::clear(), 0x36, 1 )
G( f_t1_b, tc1::reg::tifr1::ocf1b::read(), tc1::reg::tifr1::ocf1b::clear(), 0x36, 2 )
G( f_t1_overflow, tc1::reg::tifr1::tov1::read(), tc1::reg::tifr1::tov1::clear(), 0x36, 0 )
G( f_int0, ei::eifr<eint::int0>::read(), ei::eifr<eint::int0>::clear(), 0x3c, 0 )
G( f_int1, ei::eifr<eint::int1>::read(), ei::eifr<eint::int1>::clear(), 0x3c, 1 )
G( f_pcint0, ei::pcifr<pcint::int0>::read(), ei::pcifr<pcint::int0>::clear(), 0x3b, 0 )
G( f_pcint1, ei::pcifr<pcint::int1>::read(), ei::pcifr<pcint::int1>::clear(), 0x3b, 1 )
G( f_pcint2, ei::pcifr<pcint::int2>::read(), ei::pcifr<pcint::int2>::clear(), 0x3b, 2 )
G( f_ac, ac::reg::acsr::aci::read(), ac::reg::acsr::aci::clear(), 0x50, 4 )
G( f_adc, adc::reg::adcsra::adif::read(), adc::reg::adcsra::adif::clear(), 0x7a, 4 )
G( f_twi, twi::reg::twcr::twintc::read(), twi::reg::twcr::twintc::clear(), 0xbc, 7 )
