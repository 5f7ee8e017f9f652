// Options of the device: parts of a register set and read by type (or function).
// O( id, namespace, type, address, hi, lo )       set( type ) deferred, current( type )
// N( id, namespace, type, address, hi, lo )       set( type ) at once
// L( id, set expression of v, current expression, address, hi, lo )   other, deferred
// D( id, set expression of v, current expression, address, hi, lo )   other, at once
// hi == 15: 16-bit register
N( ee_address, mem::eeprom, address, 0x41, 15, 0 )
N( ee_data, mem::eeprom, data, 0x40, 7, 0 )
O( ee_mode, mem::eeprom::program, mode, 0x3f, 5, 4 )
O( ee_master_write, mem::eeprom::enable, master_write, 0x3f, 2, 2 )
O( ee_write, mem::eeprom::enable, write, 0x3f, 1, 1 )
O( ee_read, mem::eeprom::enable, read, 0x3f, 0, 0 )
O( ee_on_ready, mem::eeprom::interrupt, on_ready, 0x3f, 3, 3 )

L( sense1, ei::interrupt_sense<eint::int1>( ei::sense( v ) ), ei::interrupt_sense<eint::int1>(), 0x69, 3, 2 )
L( sense0, ei::interrupt_sense<eint::int0>( ei::sense( v ) ), ei::interrupt_sense<eint::int0>(), 0x69, 1, 0 )
D( external_int0, ei::enable_external_int0( v ), ei::enabled_external_int0(), 0x3d, 0, 0 )
D( external_int1, ei::enable_external_int1( v ), ei::enabled_external_int1(), 0x3d, 1, 1 )
D( pin_change_int0, ei::enable_pin_change_int0( v ), ei::enabled_pin_change_int0(), 0x68, 0, 0 )
D( pin_change_int1, ei::enable_pin_change_int1( v ), ei::enabled_pin_change_int1(), 0x68, 1, 1 )
D( pin_change_int2, ei::enable_pin_change_int2( v ), ei::enabled_pin_change_int2(), 0x68, 2, 2 )
D( pin_change_mask0, ei::pin_change_interrupt_mask0( v ), ei::pin_change_interrupt_mask0(), 0x6b, 7, 0 )
D( pin_change_mask1, ei::pin_change_interrupt_mask1( v ), ei::pin_change_interrupt_mask1(), 0x6c, 7, 0 )
D( pin_change_mask2, ei::pin_change_interrupt_mask2( v ), ei::pin_change_interrupt_mask2(), 0x6d, 7, 0 )

O( tc0_clock, tc0::input, clock, 0x45, 2, 0 )
O( tc0_a_mode, tc0::output::a, mode, 0x44, 7, 6 )
O( tc0_b_mode, tc0::output::b, mode, 0x44, 5, 4 )
N( tc0_timer, tc0::value, timer, 0x46, 7, 0 )
N( tc0_compare_a, tc0::value::compare, a, 0x47, 7, 0 )
N( tc0_compare_b, tc0::value::compare, b, 0x48, 7, 0 )
O( tc0_on_match_a, tc0::enable::interrupt::on, match_a, 0x6e, 1, 1 )
O( tc0_on_match_b, tc0::enable::interrupt::on, match_b, 0x6e, 2, 2 )
O( tc0_on_overflow, tc0::enable::interrupt::on, overflow, 0x6e, 0, 0 )

O( tc1_clock, tc1::input, clock, 0x81, 2, 0 )
O( tc1_edge, tc1::input::capture, edge, 0x81, 6, 6 )
L( tc1_canceler, tc1::enable::capture::input_capture_noise_canceler( v ), tc1::enable::capture::input_capture_noise_canceler(), 0x81, 7, 7 )
O( tc1_a_mode, tc1::output::a, mode, 0x80, 7, 6 )
O( tc1_b_mode, tc1::output::b, mode, 0x80, 5, 4 )
N( tc1_timer, tc1::value, timer, 0x84, 15, 0 )
N( tc1_compare_a, tc1::value::compare, a, 0x88, 15, 0 )
N( tc1_compare_b, tc1::value::compare, b, 0x8a, 15, 0 )
O( tc1_on_capture, tc1::enable::interrupt::on, capture, 0x6f, 5, 5 )
O( tc1_on_match_a, tc1::enable::interrupt::on, match_a, 0x6f, 1, 1 )
O( tc1_on_match_b, tc1::enable::interrupt::on, match_b, 0x6f, 2, 2 )
O( tc1_on_overflow, tc1::enable::interrupt::on, overflow, 0x6f, 0, 0 )

O( synchronization, tcp, synchronization, 0x43, 7, 7 )
O( reset_tc2, tcp::reset::prescaler, tc2, 0x43, 1, 1 )
O( reset_tc01, tcp::reset::prescaler, tc01, 0x43, 0, 0 )

N( twi_data, twi::protocol, data, 0xbb, 7, 0 )
O( twi_address, twi::protocol, address, 0xba, 7, 1 )
O( twi_general_call, twi::enable, general_call, 0xba, 0, 0 )
N( twi_rate, twi::control, rate, 0xb8, 7, 0 )
N( twi_factor, twi::control::prescale, factor, 0xb9, 1, 0 )
O( twi_interface, twi::enable, interface, 0xbc, 2, 2 )
O( twi_interrupt, twi::enable, interrupt, 0xbc, 0, 0 )

O( ac_bandgap, ac::input::select, bandgap_ref, 0x50, 6, 6 )
O( ac_on, ac::output::interrupt, on, 0x50, 1, 0 )
O( ac_interrupt, ac::enable, interrupt, 0x50, 3, 3 )
O( ac_capture, ac::enable::input, capture, 0x50, 2, 2 )
O( ac_disable, ac::disable::analog, comparator, 0x50, 7, 7 )

O( adc_adjustment, adc::conversion, adjustment, 0x7c, 5, 5 )
O( adc_reference, adc::input, reference, 0x7c, 7, 6 )
O( adc_channel, adc::input, channel, 0x7c, 3, 0 )
O( adc_adc, adc::enable, adc, 0x7a, 7, 7 )
O( adc_interrupt, adc::enable, interrupt, 0x7a, 3, 3 )
O( adc_auto_trigger, adc::enable, auto_trigger, 0x7a, 5, 5 )
O( adc_comparator, adc::enable, comparator, 0x7b, 6, 6 )
O( adc_trigger, adc::trigger, on, 0x7b, 2, 0 )
O( adc_factor, adc::prescale, factor, 0x7a, 2, 0 )
