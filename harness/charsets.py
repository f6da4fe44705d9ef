"""Independent character-set facts (collation ids from the MySQL manual as shipped with mysql-connector-python 8)."""
# charset name -> [collation ids], default collation first
COLLATIONS = {
    'armscii8': [32, 64],
    'ascii': [11, 65],
    'big5': [1, 84],
    'binary': [63],
    'cp1250': [26, 34, 44, 66, 99],
    'cp1251': [51, 14, 23, 50, 52],
    'cp1256': [57, 67],
    'cp1257': [59, 29, 58],
    'cp850': [4, 80],
    'cp852': [40, 81],
    'cp866': [36, 68],
    'cp932': [95, 96],
    'dec8': [3, 69],
    'eucjpms': [97, 98],
    'euckr': [19, 85],
    'gb18030': [248, 249, 250],
    'gb2312': [24, 86],
    'gbk': [28, 87],
    'geostd8': [92, 93],
    'greek': [25, 70],
    'hebrew': [16, 71],
    'hp8': [6, 72],
    'keybcs2': [37, 73],
    'koi8r': [7, 74],
    'koi8u': [22, 75],
    'latin1': [8, 5, 15, 31, 47, 48, 49, 94],
    'latin2': [9, 2, 21, 27, 77],
    'latin5': [30, 78],
    'latin7': [41, 20, 42, 79],
    'macce': [38, 43],
    'macroman': [39, 53],
    'sjis': [13, 88],
    'swe7': [10, 82],
    'tis620': [18, 89],
    'ucs2': [35, 90, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 159],
    'ujis': [12, 91],
    'utf16': [54, 55, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124],
    'utf16le': [56, 62],
    'utf32': [60, 61, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183],
    'utf8mb3': [33, 76, 83, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212, 213, 214, 215, 223],
    'utf8mb4': [255, 45, 46, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 240, 241, 242, 243, 244, 245, 246, 247, 256, 257, 258, 259, 260, 261, 262, 263, 264, 265, 266, 267, 268, 269, 270, 271, 273, 274, 275, 277, 278, 279, 280, 281, 282, 283, 284, 285, 286, 287, 288, 289, 290, 291, 292, 293, 294, 296, 297, 298, 300, 303, 304, 305, 306, 307, 308, 309, 310, 311, 312, 313, 314, 315, 316, 317, 318, 319, 320, 321, 322, 323],
}
COLLATION_NAMES = {
    32: 'armscii8_general_ci',
    64: 'armscii8_bin',
    11: 'ascii_general_ci',
    65: 'ascii_bin',
    1: 'big5_chinese_ci',
    84: 'big5_bin',
    63: 'binary',
    26: 'cp1250_general_ci',
    34: 'cp1250_czech_cs',
    44: 'cp1250_croatian_ci',
    66: 'cp1250_bin',
    99: 'cp1250_polish_ci',
    14: 'cp1251_bulgarian_ci',
    23: 'cp1251_ukrainian_ci',
    50: 'cp1251_bin',
    51: 'cp1251_general_ci',
    52: 'cp1251_general_cs',
    57: 'cp1256_general_ci',
    67: 'cp1256_bin',
    29: 'cp1257_lithuanian_ci',
    58: 'cp1257_bin',
    59: 'cp1257_general_ci',
    4: 'cp850_general_ci',
    80: 'cp850_bin',
    40: 'cp852_general_ci',
    81: 'cp852_bin',
    36: 'cp866_general_ci',
    68: 'cp866_bin',
    95: 'cp932_japanese_ci',
    96: 'cp932_bin',
    3: 'dec8_swedish_ci',
    69: 'dec8_bin',
    97: 'eucjpms_japanese_ci',
    98: 'eucjpms_bin',
    19: 'euckr_korean_ci',
    85: 'euckr_bin',
    248: 'gb18030_chinese_ci',
    249: 'gb18030_bin',
    250: 'gb18030_unicode_520_ci',
    24: 'gb2312_chinese_ci',
    86: 'gb2312_bin',
    28: 'gbk_chinese_ci',
    87: 'gbk_bin',
    92: 'geostd8_general_ci',
    93: 'geostd8_bin',
    25: 'greek_general_ci',
    70: 'greek_bin',
    16: 'hebrew_general_ci',
    71: 'hebrew_bin',
    6: 'hp8_english_ci',
    72: 'hp8_bin',
    37: 'keybcs2_general_ci',
    73: 'keybcs2_bin',
    7: 'koi8r_general_ci',
    74: 'koi8r_bin',
    22: 'koi8u_general_ci',
    75: 'koi8u_bin',
    5: 'latin1_german1_ci',
    8: 'latin1_swedish_ci',
    15: 'latin1_danish_ci',
    31: 'latin1_german2_ci',
    47: 'latin1_bin',
    48: 'latin1_general_ci',
    49: 'latin1_general_cs',
    94: 'latin1_spanish_ci',
    2: 'latin2_czech_cs',
    9: 'latin2_general_ci',
    21: 'latin2_hungarian_ci',
    27: 'latin2_croatian_ci',
    77: 'latin2_bin',
    30: 'latin5_turkish_ci',
    78: 'latin5_bin',
    20: 'latin7_estonian_cs',
    41: 'latin7_general_ci',
    42: 'latin7_general_cs',
    79: 'latin7_bin',
    38: 'macce_general_ci',
    43: 'macce_bin',
    39: 'macroman_general_ci',
    53: 'macroman_bin',
    13: 'sjis_japanese_ci',
    88: 'sjis_bin',
    10: 'swe7_swedish_ci',
    82: 'swe7_bin',
    18: 'tis620_thai_ci',
    89: 'tis620_bin',
    35: 'ucs2_general_ci',
    90: 'ucs2_bin',
    128: 'ucs2_unicode_ci',
    129: 'ucs2_icelandic_ci',
    130: 'ucs2_latvian_ci',
    131: 'ucs2_romanian_ci',
    132: 'ucs2_slovenian_ci',
    133: 'ucs2_polish_ci',
    134: 'ucs2_estonian_ci',
    135: 'ucs2_spanish_ci',
    136: 'ucs2_swedish_ci',
    137: 'ucs2_turkish_ci',
    138: 'ucs2_czech_ci',
    139: 'ucs2_danish_ci',
    140: 'ucs2_lithuanian_ci',
    141: 'ucs2_slovak_ci',
    142: 'ucs2_spanish2_ci',
    143: 'ucs2_roman_ci',
    144: 'ucs2_persian_ci',
    145: 'ucs2_esperanto_ci',
    146: 'ucs2_hungarian_ci',
    147: 'ucs2_sinhala_ci',
    148: 'ucs2_german2_ci',
    149: 'ucs2_croatian_ci',
    150: 'ucs2_unicode_520_ci',
    151: 'ucs2_vietnamese_ci',
    159: 'ucs2_general_mysql500_ci',
    12: 'ujis_japanese_ci',
    91: 'ujis_bin',
    54: 'utf16_general_ci',
    55: 'utf16_bin',
    101: 'utf16_unicode_ci',
    102: 'utf16_icelandic_ci',
    103: 'utf16_latvian_ci',
    104: 'utf16_romanian_ci',
    105: 'utf16_slovenian_ci',
    106: 'utf16_polish_ci',
    107: 'utf16_estonian_ci',
    108: 'utf16_spanish_ci',
    109: 'utf16_swedish_ci',
    110: 'utf16_turkish_ci',
    111: 'utf16_czech_ci',
    112: 'utf16_danish_ci',
    113: 'utf16_lithuanian_ci',
    114: 'utf16_slovak_ci',
    115: 'utf16_spanish2_ci',
    116: 'utf16_roman_ci',
    117: 'utf16_persian_ci',
    118: 'utf16_esperanto_ci',
    119: 'utf16_hungarian_ci',
    120: 'utf16_sinhala_ci',
    121: 'utf16_german2_ci',
    122: 'utf16_croatian_ci',
    123: 'utf16_unicode_520_ci',
    124: 'utf16_vietnamese_ci',
    56: 'utf16le_general_ci',
    62: 'utf16le_bin',
    60: 'utf32_general_ci',
    61: 'utf32_bin',
    160: 'utf32_unicode_ci',
    161: 'utf32_icelandic_ci',
    162: 'utf32_latvian_ci',
    163: 'utf32_romanian_ci',
    164: 'utf32_slovenian_ci',
    165: 'utf32_polish_ci',
    166: 'utf32_estonian_ci',
    167: 'utf32_spanish_ci',
    168: 'utf32_swedish_ci',
    169: 'utf32_turkish_ci',
    170: 'utf32_czech_ci',
    171: 'utf32_danish_ci',
    172: 'utf32_lithuanian_ci',
    173: 'utf32_slovak_ci',
    174: 'utf32_spanish2_ci',
    175: 'utf32_roman_ci',
    176: 'utf32_persian_ci',
    177: 'utf32_esperanto_ci',
    178: 'utf32_hungarian_ci',
    179: 'utf32_sinhala_ci',
    180: 'utf32_german2_ci',
    181: 'utf32_croatian_ci',
    182: 'utf32_unicode_520_ci',
    183: 'utf32_vietnamese_ci',
    33: 'utf8mb3_general_ci',
    76: 'utf8mb3_tolower_ci',
    83: 'utf8mb3_bin',
    192: 'utf8mb3_unicode_ci',
    193: 'utf8mb3_icelandic_ci',
    194: 'utf8mb3_latvian_ci',
    195: 'utf8mb3_romanian_ci',
    196: 'utf8mb3_slovenian_ci',
    197: 'utf8mb3_polish_ci',
    198: 'utf8mb3_estonian_ci',
    199: 'utf8mb3_spanish_ci',
    200: 'utf8mb3_swedish_ci',
    201: 'utf8mb3_turkish_ci',
    202: 'utf8mb3_czech_ci',
    203: 'utf8mb3_danish_ci',
    204: 'utf8mb3_lithuanian_ci',
    205: 'utf8mb3_slovak_ci',
    206: 'utf8mb3_spanish2_ci',
    207: 'utf8mb3_roman_ci',
    208: 'utf8mb3_persian_ci',
    209: 'utf8mb3_esperanto_ci',
    210: 'utf8mb3_hungarian_ci',
    211: 'utf8mb3_sinhala_ci',
    212: 'utf8mb3_german2_ci',
    213: 'utf8mb3_croatian_ci',
    214: 'utf8mb3_unicode_520_ci',
    215: 'utf8mb3_vietnamese_ci',
    223: 'utf8mb3_general_mysql500_ci',
    45: 'utf8mb4_general_ci',
    46: 'utf8mb4_bin',
    224: 'utf8mb4_unicode_ci',
    225: 'utf8mb4_icelandic_ci',
    226: 'utf8mb4_latvian_ci',
    227: 'utf8mb4_romanian_ci',
    228: 'utf8mb4_slovenian_ci',
    229: 'utf8mb4_polish_ci',
    230: 'utf8mb4_estonian_ci',
    231: 'utf8mb4_spanish_ci',
    232: 'utf8mb4_swedish_ci',
    233: 'utf8mb4_turkish_ci',
    234: 'utf8mb4_czech_ci',
    235: 'utf8mb4_danish_ci',
    236: 'utf8mb4_lithuanian_ci',
    237: 'utf8mb4_slovak_ci',
    238: 'utf8mb4_spanish2_ci',
    239: 'utf8mb4_roman_ci',
    240: 'utf8mb4_persian_ci',
    241: 'utf8mb4_esperanto_ci',
    242: 'utf8mb4_hungarian_ci',
    243: 'utf8mb4_sinhala_ci',
    244: 'utf8mb4_german2_ci',
    245: 'utf8mb4_croatian_ci',
    246: 'utf8mb4_unicode_520_ci',
    247: 'utf8mb4_vietnamese_ci',
    255: 'utf8mb4_0900_ai_ci',
    256: 'utf8mb4_de_pb_0900_ai_ci',
    257: 'utf8mb4_is_0900_ai_ci',
    258: 'utf8mb4_lv_0900_ai_ci',
    259: 'utf8mb4_ro_0900_ai_ci',
    260: 'utf8mb4_sl_0900_ai_ci',
    261: 'utf8mb4_pl_0900_ai_ci',
    262: 'utf8mb4_et_0900_ai_ci',
    263: 'utf8mb4_es_0900_ai_ci',
    264: 'utf8mb4_sv_0900_ai_ci',
    265: 'utf8mb4_tr_0900_ai_ci',
    266: 'utf8mb4_cs_0900_ai_ci',
    267: 'utf8mb4_da_0900_ai_ci',
    268: 'utf8mb4_lt_0900_ai_ci',
    269: 'utf8mb4_sk_0900_ai_ci',
    270: 'utf8mb4_es_trad_0900_ai_ci',
    271: 'utf8mb4_la_0900_ai_ci',
    273: 'utf8mb4_eo_0900_ai_ci',
    274: 'utf8mb4_hu_0900_ai_ci',
    275: 'utf8mb4_hr_0900_ai_ci',
    277: 'utf8mb4_vi_0900_ai_ci',
    278: 'utf8mb4_0900_as_cs',
    279: 'utf8mb4_de_pb_0900_as_cs',
    280: 'utf8mb4_is_0900_as_cs',
    281: 'utf8mb4_lv_0900_as_cs',
    282: 'utf8mb4_ro_0900_as_cs',
    283: 'utf8mb4_sl_0900_as_cs',
    284: 'utf8mb4_pl_0900_as_cs',
    285: 'utf8mb4_et_0900_as_cs',
    286: 'utf8mb4_es_0900_as_cs',
    287: 'utf8mb4_sv_0900_as_cs',
    288: 'utf8mb4_tr_0900_as_cs',
    289: 'utf8mb4_cs_0900_as_cs',
    290: 'utf8mb4_da_0900_as_cs',
    291: 'utf8mb4_lt_0900_as_cs',
    292: 'utf8mb4_sk_0900_as_cs',
    293: 'utf8mb4_es_trad_0900_as_cs',
    294: 'utf8mb4_la_0900_as_cs',
    296: 'utf8mb4_eo_0900_as_cs',
    297: 'utf8mb4_hu_0900_as_cs',
    298: 'utf8mb4_hr_0900_as_cs',
    300: 'utf8mb4_vi_0900_as_cs',
    303: 'utf8mb4_ja_0900_as_cs',
    304: 'utf8mb4_ja_0900_as_cs_ks',
    305: 'utf8mb4_0900_as_ci',
    306: 'utf8mb4_ru_0900_ai_ci',
    307: 'utf8mb4_ru_0900_as_cs',
    308: 'utf8mb4_zh_0900_as_cs',
    309: 'utf8mb4_0900_bin',
    310: 'utf8mb4_nb_0900_ai_ci',
    311: 'utf8mb4_nb_0900_as_cs',
    312: 'utf8mb4_nn_0900_ai_ci',
    313: 'utf8mb4_nn_0900_as_cs',
    314: 'utf8mb4_sr_latn_0900_ai_ci',
    315: 'utf8mb4_sr_latn_0900_as_cs',
    316: 'utf8mb4_bs_0900_ai_ci',
    317: 'utf8mb4_bs_0900_as_cs',
    318: 'utf8mb4_bg_0900_ai_ci',
    319: 'utf8mb4_bg_0900_as_cs',
    320: 'utf8mb4_gl_0900_ai_ci',
    321: 'utf8mb4_gl_0900_as_cs',
    322: 'utf8mb4_mn_cyrl_0900_ai_ci',
    323: 'utf8mb4_mn_cyrl_0900_as_cs',
}

# MySQL character set -> Python codec with the same mapping
CODEC = {
    "big5": "big5", "cp850": "cp850", "hp8": "hp_roman8", "koi8r": "koi8_r", "latin1": "cp1252", "latin2": "iso8859_2",
    "ascii": "ascii", "ujis": "euc_jp", "sjis": "shift_jis", "hebrew": "iso8859_8", "tis620": "tis_620", "euckr": "euc_kr",
    "koi8u": "koi8_u", "gb2312": "gb2312", "greek": "iso8859_7", "cp1250": "cp1250", "gbk": "gbk", "latin5": "iso8859_9",
    "utf8": "utf_8", "utf8mb3": "utf_8", "ucs2": "utf_16_be", "cp866": "cp866", "macce": "mac_latin2", "macroman": "mac_roman",
    "cp852": "cp852", "latin7": "iso8859_13", "cp1251": "cp1251", "utf16": "utf_16_be", "utf16le": "utf_16_le",
    "cp1256": "cp1256", "cp1257": "cp1257", "utf32": "utf_32_be", "cp932": "cp932", "eucjpms": "euc_jp", "gb18030": "gb18030",
    "utf8mb4": "utf_8", "binary": None, "dec8": None, "swe7": None, "armscii8": None, "keybcs2": None, "geostd8": None,
}
CHARSET_OF = {i: name for name, ids in COLLATIONS.items() for i in ids}
DEFAULT_COLLATION = {name: ids[0] for name, ids in COLLATIONS.items()}
# what clients may not use as character_set_client in MySQL
NOT_CLIENT = {"ucs2", "utf16", "utf16le", "utf32"}


def codec_of_collation(cid):
    name = CHARSET_OF.get(cid)
    return CODEC.get(name) if name else None


_REP = {}


def repertoire(cs):
    """All characters of a character set: those its codec maps to bytes and back (every plane is represented; astral planes are sampled)."""
    codec = CODEC[cs]
    if codec not in _REP:
        out = []
        cand = [c for c in range(0x10000) if not 0xD800 <= c <= 0xDFFF] + [p * 0x10000 + x for p in range(1, 17) for x in list(range(0, 0x10000, 1021)) + [0xFFFD]] + list(range(0x1F5FF, 0x1F650)) + [0x20000, 0x2A6D6, 0x200CC]
        for c in cand:
            ch = chr(c)
            try:
                if ch.encode(codec).decode(codec) == ch:
                    out.append(ch)
            except UnicodeError:
                pass
        # one character's bytes must not depend on its neighbours
        _REP[codec] = out
    return _REP[codec]


def encodable(s, cs):
    try:
        return s.encode(CODEC[cs]).decode(CODEC[cs]) == s
    except UnicodeError:
        return False
