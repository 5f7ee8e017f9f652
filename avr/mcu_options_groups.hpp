// options in the same register: R( name, options in X(...) )
R( eecr, X(ee_mode), X(ee_master_write), X(ee_write), X(ee_read), X(ee_on_ready) )
R( eicra, X(sense0), X(sense1) )
R( tccr0a, X(tc0_a_mode), X(tc0_b_mode) )
R( tccr0b, X(tc0_clock), X(tc0_waveform) )
R( timsk0, X(tc0_on_match_a), X(tc0_on_match_b), X(tc0_on_overflow) )
R( tccr1a, X(tc1_a_mode), X(tc1_b_mode) )
R( tccr1b, X(tc1_clock), X(tc1_edge), X(tc1_canceler), X(tc1_waveform) )
R( timsk1, X(tc1_on_capture), X(tc1_on_match_a), X(tc1_on_match_b), X(tc1_on_overflow) )
R( gtccr, X(synchronization), X(reset_tc2), X(reset_tc01) )
R( twar, X(twi_address), X(twi_general_call) )
R( twcr, X(twi_interface), X(twi_interrupt), X(twi_start), X(twi_stop), X(twi_ack), X(twi_flag) )
R( acsr, X(ac_bandgap), X(ac_on), X(ac_interrupt), X(ac_capture), X(ac_disable) )
R( admux, X(adc_adjustment), X(adc_reference), X(adc_channel) )
R( adcsra, X(adc_adc), X(adc_interrupt), X(adc_auto_trigger), X(adc_factor), X(adc_start) )
R( adcsrb, X(adc_comparator), X(adc_trigger) )
