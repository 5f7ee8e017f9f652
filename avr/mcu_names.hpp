// Named settings with their value in the data sheet: V( option, enumerator, value )
V( ee_mode, mem::eeprom::program::mode::erase_write, 0 )
V( ee_mode, mem::eeprom::program::mode::erase_only, 1 )
V( ee_mode, mem::eeprom::program::mode::write_only, 2 )
V( ee_master_write, mem::eeprom::enable::master_write::on, 1 )
V( ee_master_write, mem::eeprom::enable::master_write::off, 0 )
V( ee_write, mem::eeprom::enable::write::on, 1 )
V( ee_write, mem::eeprom::enable::write::off, 0 )
V( ee_read, mem::eeprom::enable::read::on, 1 )
V( ee_read, mem::eeprom::enable::read::off, 0 )
V( ee_on_ready, mem::eeprom::interrupt::on_ready::on, 1 )
V( ee_on_ready, mem::eeprom::interrupt::on_ready::off, 0 )
V( sense0, ei::sense::low, 0 )
V( sense0, ei::sense::change, 1 )
V( sense0, ei::sense::falling_edge, 2 )
V( sense0, ei::sense::rising_edge, 3 )
V( sense1, ei::sense::low, 0 )
V( sense1, ei::sense::change, 1 )
V( sense1, ei::sense::falling_edge, 2 )
V( sense1, ei::sense::rising_edge, 3 )
V( tc0_clock, tc0::input::clock::none, 0 )
V( tc0_clock, tc0::input::clock::x1, 1 )
V( tc0_clock, tc0::input::clock::x8, 2 )
V( tc0_clock, tc0::input::clock::x64, 3 )
V( tc0_clock, tc0::input::clock::x256, 4 )
V( tc0_clock, tc0::input::clock::x1024, 5 )
V( tc0_clock, tc0::input::clock::ext1_falling_adge, 6 )
V( tc0_clock, tc0::input::clock::ext1_rising_adge, 7 )
V( tc0_a_mode, tc0::output::a::mode::none, 0 )
V( tc0_a_mode, tc0::output::a::mode::toggle, 1 )
V( tc0_a_mode, tc0::output::a::mode::clear, 2 )
V( tc0_a_mode, tc0::output::a::mode::set, 3 )
V( tc0_b_mode, tc0::output::b::mode::none, 0 )
V( tc0_b_mode, tc0::output::b::mode::toggle, 1 )
V( tc0_b_mode, tc0::output::b::mode::clear, 2 )
V( tc0_b_mode, tc0::output::b::mode::set, 3 )
V( tc0_waveform, tc0::output::waveform::normal, 0 )
V( tc0_waveform, tc0::output::waveform::pwm_phase_correct, 1 )
V( tc0_waveform, tc0::output::waveform::ctc, 2 )
V( tc0_waveform, tc0::output::waveform::ctc_ocr0a, 2 )
V( tc0_waveform, tc0::output::waveform::fast_pwm, 3 )
V( tc0_waveform, tc0::output::waveform::pwm_phase_correct_ocr0a, 5 )
V( tc0_waveform, tc0::output::waveform::fast_pwm_ocr0a, 7 )
V( tc0_on_match_a, tc0::enable::interrupt::on::match_a::on, 1 )
V( tc0_on_match_a, tc0::enable::interrupt::on::match_a::off, 0 )
V( tc0_on_match_b, tc0::enable::interrupt::on::match_b::on, 1 )
V( tc0_on_match_b, tc0::enable::interrupt::on::match_b::off, 0 )
V( tc0_on_overflow, tc0::enable::interrupt::on::overflow::on, 1 )
V( tc0_on_overflow, tc0::enable::interrupt::on::overflow::off, 0 )
V( tc1_clock, tc1::input::clock::none, 0 )
V( tc1_clock, tc1::input::clock::x1, 1 )
V( tc1_clock, tc1::input::clock::x8, 2 )
V( tc1_clock, tc1::input::clock::x64, 3 )
V( tc1_clock, tc1::input::clock::x256, 4 )
V( tc1_clock, tc1::input::clock::x1024, 5 )
V( tc1_clock, tc1::input::clock::ext1_falling_adge, 6 )
V( tc1_clock, tc1::input::clock::ext1_rising_adge, 7 )
V( tc1_edge, tc1::input::capture::edge::falling, 0 )
V( tc1_edge, tc1::input::capture::edge::rising, 1 )
V( tc1_a_mode, tc1::output::a::mode::none, 0 )
V( tc1_a_mode, tc1::output::a::mode::toggle, 1 )
V( tc1_a_mode, tc1::output::a::mode::clear, 2 )
V( tc1_a_mode, tc1::output::a::mode::set, 3 )
V( tc1_b_mode, tc1::output::b::mode::none, 0 )
V( tc1_b_mode, tc1::output::b::mode::toggle, 1 )
V( tc1_b_mode, tc1::output::b::mode::clear, 2 )
V( tc1_b_mode, tc1::output::b::mode::set, 3 )
V( tc1_waveform, tc1::output::waveform::normal, 0 )
V( tc1_waveform, tc1::output::waveform::pwm_phase_correct_8bit, 1 )
V( tc1_waveform, tc1::output::waveform::pwm_phase_correct_9bit, 2 )
V( tc1_waveform, tc1::output::waveform::pwm_phase_correct_10bit, 3 )
V( tc1_waveform, tc1::output::waveform::ctc_ocr1a, 4 )
V( tc1_waveform, tc1::output::waveform::fast_pwm_phase_correct_8bit, 5 )
V( tc1_waveform, tc1::output::waveform::fast_pwm_phase_correct_9bit, 6 )
V( tc1_waveform, tc1::output::waveform::fast_pwm_phase_correct_10bit, 7 )
V( tc1_waveform, tc1::output::waveform::pwm_phase_frequency_correct_icr1, 8 )
V( tc1_waveform, tc1::output::waveform::pwm_phase_frequency_correct_ocr1a, 9 )
V( tc1_waveform, tc1::output::waveform::pwm_phase_correct_icr1, 10 )
V( tc1_waveform, tc1::output::waveform::pwm_phase_correct_ocr1a, 11 )
V( tc1_waveform, tc1::output::waveform::ctc_icr1, 12 )
V( tc1_waveform, tc1::output::waveform::fast_pwm_icr1, 14 )
V( tc1_waveform, tc1::output::waveform::fast_pwm_ocr1a, 15 )
V( tc1_on_capture, tc1::enable::interrupt::on::capture::on, 1 )
V( tc1_on_capture, tc1::enable::interrupt::on::capture::off, 0 )
V( tc1_on_match_a, tc1::enable::interrupt::on::match_a::on, 1 )
V( tc1_on_match_a, tc1::enable::interrupt::on::match_a::off, 0 )
V( tc1_on_match_b, tc1::enable::interrupt::on::match_b::on, 1 )
V( tc1_on_match_b, tc1::enable::interrupt::on::match_b::off, 0 )
V( tc1_on_overflow, tc1::enable::interrupt::on::overflow::on, 1 )
V( tc1_on_overflow, tc1::enable::interrupt::on::overflow::off, 0 )
V( synchronization, tcp::synchronization::on, 1 )
V( synchronization, tcp::synchronization::off, 0 )
V( reset_tc2, tcp::reset::prescaler::tc2::on, 1 )
V( reset_tc2, tcp::reset::prescaler::tc2::off, 0 )
V( reset_tc01, tcp::reset::prescaler::tc01::on, 1 )
V( reset_tc01, tcp::reset::prescaler::tc01::off, 0 )
V( twi_general_call, twi::enable::general_call::on, 1 )
V( twi_general_call, twi::enable::general_call::off, 0 )
V( twi_factor, twi::control::prescale::factor::x1, 0 )
V( twi_factor, twi::control::prescale::factor::x4, 1 )
V( twi_factor, twi::control::prescale::factor::x16, 2 )
V( twi_factor, twi::control::prescale::factor::x64, 3 )
V( twi_interface, twi::enable::interface::on, 1 )
V( twi_interface, twi::enable::interface::off, 0 )
V( twi_interrupt, twi::enable::interrupt::on, 1 )
V( twi_interrupt, twi::enable::interrupt::off, 0 )
V( ac_bandgap, ac::input::select::bandgap_ref::on, 1 )
V( ac_bandgap, ac::input::select::bandgap_ref::off, 0 )
V( ac_on, ac::output::interrupt::on::toggle, 0 )
V( ac_on, ac::output::interrupt::on::falling_edge, 2 )
V( ac_on, ac::output::interrupt::on::rising_edge, 3 )
V( ac_interrupt, ac::enable::interrupt::on, 1 )
V( ac_interrupt, ac::enable::interrupt::off, 0 )
V( ac_capture, ac::enable::input::capture::on, 1 )
V( ac_capture, ac::enable::input::capture::off, 0 )
V( ac_disable, ac::disable::analog::comparator::on, 1 )
V( ac_disable, ac::disable::analog::comparator::off, 0 )
V( adc_adjustment, adc::conversion::adjustment::right, 0 )
V( adc_adjustment, adc::conversion::adjustment::left, 1 )
V( adc_reference, adc::input::reference::aref, 0 )
V( adc_reference, adc::input::reference::avcc, 1 )
V( adc_reference, adc::input::reference::intern_1v1, 3 )
V( adc_channel, adc::input::channel::ch0, 0 )
V( adc_channel, adc::input::channel::ch1, 1 )
V( adc_channel, adc::input::channel::ch2, 2 )
V( adc_channel, adc::input::channel::ch3, 3 )
V( adc_channel, adc::input::channel::ch4, 4 )
V( adc_channel, adc::input::channel::ch5, 5 )
V( adc_channel, adc::input::channel::ch6, 6 )
V( adc_channel, adc::input::channel::ch7, 7 )
V( adc_channel, adc::input::channel::ch8, 8 )
V( adc_channel, adc::input::channel::internal_1v1, 14 )
V( adc_channel, adc::input::channel::gnd, 15 )
V( adc_adc, adc::enable::adc::on, 1 )
V( adc_adc, adc::enable::adc::off, 0 )
V( adc_interrupt, adc::enable::interrupt::on, 1 )
V( adc_interrupt, adc::enable::interrupt::off, 0 )
V( adc_auto_trigger, adc::enable::auto_trigger::on, 1 )
V( adc_auto_trigger, adc::enable::auto_trigger::off, 0 )
V( adc_comparator, adc::enable::comparator::on, 1 )
V( adc_comparator, adc::enable::comparator::off, 0 )
V( adc_trigger, adc::trigger::on::free_run, 0 )
V( adc_trigger, adc::trigger::on::ac, 1 )
V( adc_trigger, adc::trigger::on::ei0, 2 )
V( adc_trigger, adc::trigger::on::tc0_match_a, 3 )
V( adc_trigger, adc::trigger::on::tc0_overflow, 4 )
V( adc_trigger, adc::trigger::on::tc1_match_b, 5 )
V( adc_trigger, adc::trigger::on::tc1_overflow, 6 )
V( adc_trigger, adc::trigger::on::tc1_capture_event, 7 )
V( adc_factor, adc::prescale::factor::x02, 0 )
V( adc_factor, adc::prescale::factor::x2, 1 )
V( adc_factor, adc::prescale::factor::x4, 2 )
V( adc_factor, adc::prescale::factor::x8, 3 )
V( adc_factor, adc::prescale::factor::x16, 4 )
V( adc_factor, adc::prescale::factor::x32, 5 )
V( adc_factor, adc::prescale::factor::x64, 6 )
V( adc_factor, adc::prescale::factor::x128, 7 )
V( twi_status, twi::protocol::status::S_transmitted, 1 )
V( twi_status, twi::protocol::status::RS_transmitted, 2 )
V( twi_status, twi::protocol::status::SLAW_transmitted_ACK, 3 )
V( twi_status, twi::protocol::status::SLAW_transmitted_NACK, 4 )
V( twi_status, twi::protocol::status::Data_transmitted_ACK, 5 )
V( twi_status, twi::protocol::status::Data_transmitted_NACK, 6 )
V( twi_status, twi::protocol::status::Arbitration_lost, 7 )
