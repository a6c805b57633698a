caps! { 1 2 3 4 5 6 7 8 9 15 16 17 22 23 24 31 32 33 47 48 62 63 64 65 95 96 127 128 129 191 192 200 223 239 247 252 253 254 255 }
