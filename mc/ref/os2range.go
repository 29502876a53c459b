package ref

import "sort"

// blocks are the Unicode blocks of the ulUnicodeRange bits of the OS/2 table: bit, first, last.
var blocks = [][3]rune{
	{0, 0x0000, 0x007F}, {1, 0x0080, 0x00FF}, {2, 0x0100, 0x017F}, {3, 0x0180, 0x024F}, {4, 0x0250, 0x02AF}, {5, 0x02B0, 0x02FF},
	{6, 0x0300, 0x036F}, {7, 0x0370, 0x03FF}, {9, 0x0400, 0x052F}, {10, 0x0530, 0x058F}, {11, 0x0590, 0x05FF}, {13, 0x0600, 0x06FF},
	{71, 0x0700, 0x074F}, {13, 0x0750, 0x077F}, {72, 0x0780, 0x07BF}, {14, 0x07C0, 0x07FF}, {15, 0x0900, 0x097F}, {16, 0x0980, 0x09FF},
	{17, 0x0A00, 0x0A7F}, {18, 0x0A80, 0x0AFF}, {19, 0x0B00, 0x0B7F}, {20, 0x0B80, 0x0BFF}, {21, 0x0C00, 0x0C7F}, {22, 0x0C80, 0x0CFF},
	{23, 0x0D00, 0x0D7F}, {73, 0x0D80, 0x0DFF}, {24, 0x0E00, 0x0E7F}, {25, 0x0E80, 0x0EFF}, {70, 0x0F00, 0x0FFF}, {74, 0x1000, 0x109F},
	{26, 0x10A0, 0x10FF}, {28, 0x1100, 0x11FF}, {75, 0x1200, 0x139F}, {76, 0x13A0, 0x13FF}, {77, 0x1400, 0x167F}, {78, 0x1680, 0x169F},
	{79, 0x16A0, 0x16FF}, {84, 0x1700, 0x177F}, {80, 0x1780, 0x17FF}, {81, 0x1800, 0x18AF}, {93, 0x1900, 0x194F}, {94, 0x1950, 0x197F},
	{95, 0x1980, 0x19DF}, {80, 0x19E0, 0x19FF}, {96, 0x1A00, 0x1A1F}, {27, 0x1B00, 0x1B7F}, {112, 0x1B80, 0x1BBF}, {113, 0x1C00, 0x1C4F},
	{114, 0x1C50, 0x1C7F}, {4, 0x1D00, 0x1DBF}, {6, 0x1DC0, 0x1DFF}, {29, 0x1E00, 0x1EFF}, {30, 0x1F00, 0x1FFF}, {31, 0x2000, 0x206F},
	{32, 0x2070, 0x209F}, {33, 0x20A0, 0x20CF}, {34, 0x20D0, 0x20FF}, {35, 0x2100, 0x214F}, {36, 0x2150, 0x218F}, {37, 0x2190, 0x21FF},
	{38, 0x2200, 0x22FF}, {39, 0x2300, 0x23FF}, {40, 0x2400, 0x243F}, {41, 0x2440, 0x245F}, {42, 0x2460, 0x24FF}, {43, 0x2500, 0x257F},
	{44, 0x2580, 0x259F}, {45, 0x25A0, 0x25FF}, {46, 0x2600, 0x26FF}, {47, 0x2700, 0x27BF}, {38, 0x27C0, 0x27EF}, {37, 0x27F0, 0x27FF},
	{82, 0x2800, 0x28FF}, {37, 0x2900, 0x297F}, {38, 0x2980, 0x2AFF}, {37, 0x2B00, 0x2BFF}, {97, 0x2C00, 0x2C5F}, {29, 0x2C60, 0x2C7F},
	{8, 0x2C80, 0x2CFF}, {26, 0x2D00, 0x2D2F}, {98, 0x2D30, 0x2D7F}, {75, 0x2D80, 0x2DDF}, {9, 0x2DE0, 0x2DFF}, {31, 0x2E00, 0x2E7F},
	{59, 0x2E80, 0x2FDF}, {59, 0x2FF0, 0x2FFF}, {48, 0x3000, 0x303F}, {49, 0x3040, 0x309F}, {50, 0x30A0, 0x30FF}, {51, 0x3100, 0x312F},
	{52, 0x3130, 0x318F}, {59, 0x3190, 0x319F}, {51, 0x31A0, 0x31BF}, {61, 0x31C0, 0x31EF}, {50, 0x31F0, 0x31FF}, {54, 0x3200, 0x32FF},
	{55, 0x3300, 0x33FF}, {59, 0x3400, 0x4DBF}, {99, 0x4DC0, 0x4DFF}, {59, 0x4E00, 0x9FFF}, {83, 0xA000, 0xA4CF}, {12, 0xA500, 0xA63F},
	{9, 0xA640, 0xA69F}, {5, 0xA700, 0xA71F}, {29, 0xA720, 0xA7FF}, {100, 0xA800, 0xA82F}, {53, 0xA840, 0xA87F}, {115, 0xA880, 0xA8DF},
	{116, 0xA900, 0xA92F}, {117, 0xA930, 0xA95F}, {118, 0xAA00, 0xAA5F}, {56, 0xAC00, 0xD7AF}, {60, 0xE000, 0xF8FF}, {61, 0xF900, 0xFAFF},
	{62, 0xFB00, 0xFB4F}, {63, 0xFB50, 0xFDFF}, {91, 0xFE00, 0xFE0F}, {65, 0xFE10, 0xFE1F}, {64, 0xFE20, 0xFE2F}, {65, 0xFE30, 0xFE4F},
	{66, 0xFE50, 0xFE6F}, {67, 0xFE70, 0xFEFF}, {68, 0xFF00, 0xFFEF}, {69, 0xFFF0, 0xFFFF}, {101, 0x10000, 0x1013F}, {102, 0x10140, 0x1018F},
	{119, 0x10190, 0x101CF}, {120, 0x101D0, 0x101FF}, {121, 0x10280, 0x102DF}, {85, 0x10300, 0x1032F}, {86, 0x10330, 0x1034F}, {103, 0x10380, 0x1039F},
	{104, 0x103A0, 0x103DF}, {87, 0x10400, 0x1044F}, {105, 0x10450, 0x1047F}, {106, 0x10480, 0x104AF}, {107, 0x10800, 0x1083F}, {58, 0x10900, 0x1091F},
	{121, 0x10920, 0x1093F}, {108, 0x10A00, 0x10A5F}, {110, 0x12000, 0x1247F}, {88, 0x1D000, 0x1D24F}, {109, 0x1D300, 0x1D35F}, {111, 0x1D360, 0x1D37F},
	{89, 0x1D400, 0x1D7FF}, {122, 0x1F000, 0x1F09F}, {59, 0x20000, 0x2A6DF}, {61, 0x2F800, 0x2FA1F}, {92, 0xE0000, 0xE007F}, {91, 0xE0100, 0xE01EF},
	{90, 0xF0000, 0xFFFFD}, {90, 0x100000, 0x10FFFD},
}

// UnicodeRange returns the ulUnicodeRange bits of a character.
func UnicodeRange(r rune) [4]uint32 {
	var v [4]uint32
	if i := sort.Search(len(blocks), func(i int) bool { return r <= blocks[i][2] }); i < len(blocks) && blocks[i][1] <= r {
		v[blocks[i][0]/32] |= 1 << (blocks[i][0] % 32)
	}
	if 0x10000 <= r {
		v[1] |= 1 << 25
	}
	return v
}
