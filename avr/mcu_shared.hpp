// shared values: H( id, type, volatile or nothing )
H( vu16, uint16_t, volatile )
H( vi16, int16_t, volatile )
H( vu32, uint32_t, volatile )
H( vi32, int32_t, volatile )
H( vu64, uint64_t, volatile )
H( vf, float, volatile )
H( u16, uint16_t, )
H( u32, uint32_t, )
H( f, float, )
H( u64, uint64_t, )
H( vu8, uint8_t, volatile )
H( vi8, int8_t, volatile )
H( u8, uint8_t, )
H( b, bool, )
