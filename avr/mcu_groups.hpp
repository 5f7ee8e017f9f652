// registers with several writable fields: R( register, fields in X(...) )
R( eecr, X(eepm), X(eerie), X(eempe), X(eepe), X(eere) )
R( gpior0, X(gpior0_0), X(gpior0_1), X(gpior0_2), X(gpior0_3), X(gpior0_4), X(gpior0_5), X(gpior0_6), X(gpior0_7) )
R( eicra, X(ics1), X(ics0) )
R( eimsk, X(eimsk0), X(eimsk1) )
R( pcicr, X(pcicr0), X(pcicr1), X(pcicr2) )
R( pcmsk1, X(pcmsk1_0), X(pcmsk1_2), X(pcmsk1_4), X(pcmsk1_6), X(pcmsk1_7) )
R( ddrB, X(pB0_dir), X(pB1_dir), X(pB3_dir), X(pB5_dir), X(pB7_dir) )
R( portC, X(pC0_out), X(pC2_out), X(pC4_out), X(pC5_out), X(pC6_out) )
R( tccr0a, X(com0a), X(com0b), X(wgm0) )
R( tccr0b, X(foc0a), X(foc0b), X(wgm02), X(cs0) )
R( timsk0, X(ocie0b), X(ocie0a), X(toie0) )
R( tccr1a, X(com1a), X(com1b), X(wgm1_10) )
R( tccr1b, X(icnc1), X(ices1), X(wgm1_32), X(cs1) )
R( tccr1c, X(foc1a), X(foc1b) )
R( timsk1, X(icie1), X(ocie1b), X(ocie1a), X(toie1) )
R( gtccr, X(tsm), X(psrasy), X(psrsync) )
R( twar, X(twa), X(twgce) )
R( twcr, X(twint), X(twea), X(twsta), X(twsto), X(twwc), X(twen), X(twie) )
R( acsr, X(acd), X(acbg), X(acie), X(acic), X(acis) )
R( admux, X(refs), X(adlar), X(mux) )
R( adcsra, X(aden), X(adsc), X(adate), X(adie), X(adps) )
R( adcsrb, X(acme), X(adts) )
