// Written by tools/gen_c22.py.
HEX_ALL(
"000102030405060708090a0b0c0d0e0f0A0B0C0D0E0F1011121314151617"
"18191a1b1c1d1e1f1A1B1C1D1E1F202122232425262728292a2b2c2d2e2f"
"2A2B2C2D2E2F303132333435363738393a3b3c3d3e3f3A3B3C3D3E3F4041"
"42434445464748494a4b4c4d4e4f4A4B4C4D4E4F50515253545556575859"
"5a5b5c5d5e5f5A5B5C5D5E5F606162636465666768696a6b6c6d6e6f6A6B"
"6C6D6E6F707172737475767778797a7b7c7d7e7f7A7B7C7D7E7F80818283"
"8485868788898a8b8c8d8e8f8A8B8C8D8E8F909192939495969798999a9b"
"9c9d9e9f9A9B9C9D9E9Fa0a1a2a3a4a5a6a7a8a9aaabacadaeafaAaBaCaD"
"aEaFb0b1b2b3b4b5b6b7b8b9babbbcbdbebfbAbBbCbDbEbFc0c1c2c3c4c5"
"c6c7c8c9cacbcccdcecfcAcBcCcDcEcFd0d1d2d3d4d5d6d7d8d9dadbdcdd"
"dedfdAdBdCdDdEdFe0e1e2e3e4e5e6e7e8e9eaebecedeeefeAeBeCeDeEeF"
"f0f1f2f3f4f5f6f7f8f9fafbfcfdfefffAfBfCfDfEfFA0A1A2A3A4A5A6A7"
"A8A9AaAbAcAdAeAfAAABACADAEAFB0B1B2B3B4B5B6B7B8B9BaBbBcBdBeBf"
"BABBBCBDBEBFC0C1C2C3C4C5C6C7C8C9CaCbCcCdCeCfCACBCCCDCECFD0D1"
"D2D3D4D5D6D7D8D9DaDbDcDdDeDfDADBDCDDDEDFE0E1E2E3E4E5E6E7E8E9"
"EaEbEcEdEeEfEAEBECEDEEEFF0F1F2F3F4F5F6F7F8F9FaFbFcFdFeFfFAFB"
"FCFDFEFF")
HEX("")
HEX("00")
HEX("fF")
HEX("7f80")
HEX("000102030405060708090a0b0c0d0e0f")
HEX("DEADbeef")
