// Options that are only set, and states that are only read.
// T( id, set expression, current expression or 0, address, bit, deferred )
T( force_tc0_a, set( tc0::control::compare::force::a{} ), 0, 0x45, 7, 0 )
T( force_tc0_b, set( tc0::control::compare::force::b{} ), 0, 0x45, 6, 0 )
T( force_tc1_a, set( tc1::control::compare::force::a{} ), 0, 0x82, 7, 0 )
T( force_tc1_b, set( tc1::control::compare::force::b{} ), 0, 0x82, 6, 0 )
T( twi_start, set( twi::protocol::start{} ), current( twi::protocol::start{} ), 0xbc, 5, 1 )
T( twi_stop, set( twi::protocol::stop{} ), current( twi::protocol::stop{} ), 0xbc, 4, 1 )
T( twi_ack, set( twi::protocol::ack{} ), current( twi::protocol::ack{} ), 0xbc, 6, 1 )
T( twi_flag, set( twi::interrupt::flag{} ), current( twi::interrupt::flag{} ), 0xbc, 7, 1 )
T( adc_start, adc::conversion::start(), 0, 0x7a, 6, 1 )
// S( id, expression, address, hi, lo )
S( twi_status, current( twi::protocol::status{} ), 0xb9, 7, 3 )
S( twi_wcoll, current( twi::protocol::wcoll{} ), 0xbc, 3, 3 )
S( ac_state, current( ac::output::state{} ), 0x50, 5, 5 )
S( adc_result, adc::conversion::result(), 0x78, 15, 0 )
S( adc_lsb, adc::conversion::lsb(), 0x78, 7, 0 )
S( adc_msb, adc::conversion::msb(), 0x79, 7, 0 )
