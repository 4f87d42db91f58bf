N_(AliceBlue, 0xF0F8FF)
N_(AntiqueWhite, 0xFAEBD7)
N_(Aqua, 0x00FFFF)
N_(Aquamarine, 0x7FFFD4)
N_(Azure, 0xF0FFFF)
N_(Beige, 0xF5F5DC)
N_(Bisque, 0xFFE4C4)
N_(Black, 0x000000)
N_(BlanchedAlmond, 0xFFEBCD)
N_(Blue, 0x0000FF)
N_(BlueViolet, 0x8A2BE2)
N_(Brown, 0xA52A2A)
N_(BurlyWood, 0xDEB887)
N_(CadetBlue, 0x5F9EA0)
N_(Chartreuse, 0x7FFF00)
N_(Chocolate, 0xD2691E)
N_(Coral, 0xFF7F50)
N_(CornflowerBlue, 0x6495ED)
N_(Cornsilk, 0xFFF8DC)
N_(Crimson, 0xDC143C)
N_(Cyan, 0x00FFFF)
N_(DarkBlue, 0x00008B)
N_(DarkCyan, 0x008B8B)
N_(DarkGoldenrod, 0xB8860B)
N_(DarkGray, 0xA9A9A9)
N_(DarkGreen, 0x006400)
N_(DarkKhaki, 0xBDB76B)
N_(DarkMagenta, 0x8B008B)
N_(DarkOliveGreen, 0x556B2F)
N_(DarkOrange, 0xFF8C00)
N_(DarkOrchid, 0x9932CC)
N_(DarkRed, 0x8B0000)
N_(DarkSalmon, 0xE9967A)
N_(DarkSeaGreen, 0x8FBC8F)
N_(DarkSlateBlue, 0x483D8B)
N_(DarkSlateGray, 0x2F4F4F)
N_(DarkTurquoise, 0x00CED1)
N_(DarkViolet, 0x9400D3)
N_(DeepPink, 0xFF1493)
N_(DeepSkyBlue, 0x00BFFF)
N_(DimGray, 0x696969)
N_(DodgerBlue, 0x1E90FF)
N_(Firebrick, 0xB22222)
N_(FloralWhite, 0xFFFAF0)
N_(ForestGreen, 0x228B22)
N_(Fuchsia, 0xFF00FF)
N_(Gainsboro, 0xDCDCDC)
N_(GhostWhite, 0xF8F8FF)
N_(Gold, 0xFFD700)
N_(Goldenrod, 0xDAA520)
N_(Gray, 0x808080)
N_(Green, 0x008000)
N_(GreenYellow, 0xADFF2F)
N_(Honeydew, 0xF0FFF0)
N_(HotPink, 0xFF69B4)
N_(IndianRed, 0xCD5C5C)
N_(Indigo, 0x4B0082)
N_(Ivory, 0xFFFFF0)
N_(Khaki, 0xF0E68C)
N_(Lavender, 0xE6E6FA)
N_(LavenderBlush, 0xFFF0F5)
N_(LawnGreen, 0x7CFC00)
N_(LemonChiffon, 0xFFFACD)
N_(LightBlue, 0xADD8E6)
N_(LightCoral, 0xF08080)
N_(LightCyan, 0xE0FFFF)
N_(LightGoldenrodYellow, 0xFAFAD2)
N_(LightGreen, 0x90EE90)
N_(LightGray, 0xD3D3D3)
N_(LightPink, 0xFFB6C1)
N_(LightSalmon, 0xFFA07A)
N_(LightSeaGreen, 0x20B2AA)
N_(LightSkyBlue, 0x87CEFA)
N_(LightSlateGray, 0x778899)
N_(LightSteelBlue, 0xB0C4DE)
N_(LightYellow, 0xFFFFE0)
N_(Lime, 0x00FF00)
N_(LimeGreen, 0x32CD32)
N_(Linen, 0xFAF0E6)
N_(Magenta, 0xFF00FF)
N_(Maroon, 0x800000)
N_(MediumAquamarine, 0x66CDAA)
N_(MediumBlue, 0x0000CD)
N_(MediumOrchid, 0xBA55D3)
N_(MediumPurple, 0x9370DB)
N_(MediumSeaGreen, 0x3CB371)
N_(MediumSlateBlue, 0x7B68EE)
N_(MediumSpringGreen, 0x00FA9A)
N_(MediumTurquoise, 0x48D1CC)
N_(MediumVioletRed, 0xC71585)
N_(MidnightBlue, 0x191970)
N_(MintCream, 0xF5FFFA)
N_(MistyRose, 0xFFE4E1)
N_(Moccasin, 0xFFE4B5)
N_(NavajoWhite, 0xFFDEAD)
N_(Navy, 0x000080)
N_(OldLace, 0xFDF5E6)
N_(Olive, 0x808000)
N_(OliveDrab, 0x6B8E23)
N_(Orange, 0xFFA500)
N_(OrangeRed, 0xFF4500)
N_(Orchid, 0xDA70D6)
N_(PaleGoldenrod, 0xEEE8AA)
N_(PaleGreen, 0x98FB98)
N_(PaleTurquoise, 0xAFEEEE)
N_(PaleVioletRed, 0xDB7093)
N_(PapayaWhip, 0xFFEFD5)
N_(PeachPuff, 0xFFDAB9)
N_(Peru, 0xCD853F)
N_(Pink, 0xFFC0CB)
N_(Plum, 0xDDA0DD)
N_(PowderBlue, 0xB0E0E6)
N_(Purple, 0x800080)
N_(Red, 0xFF0000)
N_(RosyBrown, 0xBC8F8F)
N_(RoyalBlue, 0x4169E1)
N_(SaddleBrown, 0x8B4513)
N_(Salmon, 0xFA8072)
N_(SandyBrown, 0xF4A460)
N_(SeaGreen, 0x2E8B57)
N_(SeaShell, 0xFFF5EE)
N_(Sienna, 0xA0522D)
N_(Silver, 0xC0C0C0)
N_(SkyBlue, 0x87CEEB)
N_(SlateBlue, 0x6A5ACD)
N_(SlateGray, 0x708090)
N_(Snow, 0xFFFAFA)
N_(SpringGreen, 0x00FF7F)
N_(SteelBlue, 0x4682B4)
N_(Tan, 0xD2B48C)
N_(Teal, 0x008080)
N_(Thistle, 0xD8BFD8)
N_(Tomato, 0xFF6347)
N_(Transparent, 0x00FFFFFF)
N_(Turquoise, 0x40E0D0)
N_(Violet, 0xEE82EE)
N_(Wheat, 0xF5DEB3)
N_(White, 0xFFFFFF)
N_(WhiteSmoke, 0xF5F5F5)
N_(Yellow, 0xFFFF00)
N_(YellowGreen, 0x9ACD32)
