"""Published code tables (oracle for the lookups), transcribed from the standards the code cites."""
PTY = ['No PTY', 'News', 'Current affairs', 'Information', 'Sport', 'Education', 'Drama', 'Culture', 'Science', 'Varied',
 'Pop music', 'Rock music', 'Easy listening', 'Light classical', 'Serious classical', 'Other music', 'Weather',
 'Finance', "Children's programmes", 'Social affairs', 'Religion', 'Phone-in', 'Travel', 'Leisure', 'Jazz music',
 'Country music', 'National music', 'Oldies music', 'Folk music', 'Documentary', 'Alarm test', 'Alarm']

PTY_RBDS = ['No PTY', 'News', 'Information', 'Sports', 'Talk', 'Rock', 'Classic rock', 'Adult hits', 'Soft rock', 'Top 40',
 'Country', 'Oldies', 'Soft', 'Nostalgia', 'Jazz', 'Classical', 'Rhythm and blues', 'Soft rhythm and blues',
 'Language', 'Religious music', 'Religious talk', 'Personality', 'Public', 'College', 'Spanish talk', 'Spanish music',
 'Hip hop', '', '', 'Weather', 'Emergency test', 'Emergency']

LANG = ['Unknown', 'Albanian', 'Breton', 'Catalan', 'Croatian', 'Welsh', 'Czech', 'Danish', 'German', 'English', 'Spanish',
 'Esperanto', 'Estonian', 'Basque', 'Faroese', 'French', 'Frisian', 'Irish', 'Gaelic', 'Galician', 'Icelandic',
 'Italian', 'Lappish', 'Latin', 'Latvian', 'Luxembourgian', 'Lithuanian', 'Hungarian', 'Maltese', 'Dutch',
 'Norwegian', 'Occitan', 'Polish', 'Portuguese', 'Romanian', 'Romansh', 'Serbian', 'Slovak', 'Slovene', 'Finnish',
 'Swedish', 'Turkish', 'Flemish', 'Walloon', '', '', '', '', '', '', '', '', '', '', '', '', '', '', '', '', '', '',
 '', '', 'Background', '', '', '', '', 'Zulu', 'Vietnamese', 'Uzbek', 'Urdu', 'Ukrainian', 'Thai', 'Telugu', 'Tatar',
 'Tamil', 'Tadzhik', 'Swahili', 'SrananTongo', 'Somali', 'Sinhalese', 'Shona', 'Serbo-Croat', 'Ruthenian', 'Russian',
 'Quechua', 'Pushtu', 'Punjabi', 'Persian', 'Papamiento', 'Oriya', 'Nepali', 'Ndebele', 'Marathi', 'Moldovian',
 'Malaysian', 'Malagasay', 'Macedonian', 'Laotian', 'Korean', 'Khmer', 'Kazakh', 'Kannada', 'Japanese', 'Indonesian',
 'Hindi', 'Hebrew', 'Hausa', 'Gurani', 'Gujurati', 'Greek', 'Georgian', 'Fulani', 'Dari', 'Churash', 'Chinese',
 'Burmese', 'Bulgarian', 'Bengali', 'Belorussian', 'Bambora', 'Azerbaijan', 'Assamese', 'Armenian', 'Arabic',
 'Amharic']

COUNTRY = {160: 'us us us us us us us us us us us -- us us --',
 161: '-- -- -- -- -- -- -- -- -- -- ca ca ca ca gl',
 162: 'ai ag ec fk bb bz ky cr cu ar br bm an gp bs',
 163: 'bo co jm mq gf py ni -- pa dm do cl gd tc gy',
 164: 'gt hn aw -- ms tt pe sr uy kn lc sv ht ve --',
 165: '-- -- -- -- -- -- -- -- -- -- mx vc mx mx mx',
 166: '-- -- -- -- -- -- -- -- -- -- -- -- -- -- pm',
 208: 'cm cf dj mg ml ao gq ga gn za bf cg tg bj mw',
 209: 'na lr gh mr st cv sn gm bi -- bw km tz et ng',
 210: 'sl zw mz ug sz ke so ne td gw zr ci tz zm --',
 211: '-- -- eh -- rw ls -- sc -- mu -- sd -- -- --',
 224: 'de dz ad il it be ru ps al at hu mt de -- eg',
 225: 'gr cy sm ch jo fi lu bg dk gi iq gb ly ro fr',
 226: 'ma cz pl va sk sy tn -- li is mc lt rs es no',
 227: 'me ie tr mk -- -- -- nl lv lb az hr kz se by',
 228: 'md ee kg -- -- ua ks pt si am -- ge -- -- ba',
 240: 'au au au au au au au au sa af mm cn kp bh my',
 241: 'ki bt bd pk fj om nr ir nz sb bn lk tw kr hk',
 242: 'kw qa kh ws in mo vn ph jp sg mv id ae np vu',
 243: 'la th to -- -- -- -- -- pg -- ye -- -- fm mn'}

APPS = {0: 'None',
 147: 'Cross referencing DAB within RDS',
 3019: 'Leisure & Practical Info for Drivers',
 3108: 'ELECTRABEL-DSM 7',
 3265: 'Wireless Playground broadcast control signal',
 3397: 'RDS-TMC: ALERT-C / EN ISO 14819-1',
 3467: 'ELECTRABEL-DSM 18',
 3628: 'ELECTRABEL-DSM 3',
 3633: 'ELECTRABEL-DSM 13',
 3975: 'ELECTRABEL-DSM 2',
 4703: 'I-FM-RDS for fixed and mobile devices',
 7130: 'ELECTRABEL-DSM 1',
 7262: 'ELECTRABEL-DSM 20',
 7272: 'ITIS In-vehicle data base',
 7345: 'ELECTRABEL-DSM 10',
 7495: 'ELECTRABEL-DSM 4',
 7618: 'CITIBUS 4',
 7621: 'Encrypted TTI using ALERT-Plus',
 7823: 'ELECTRABEL-DSM 17',
 17408: 'RDS-Light',
 19105: 'RASANT',
 19127: 'ELECTRABEL-DSM 9',
 19362: 'ELECTRABEL-DSM 5',
 19415: 'RadioText+ (RT+)',
 19416: 'RadioText Plus / RT+ for eRT',
 19545: 'CITIBUS 2',
 19847: 'Radio Commerce System (RCS)',
 19861: 'ELECTRABEL-DSM 16',
 19866: 'ELECTRABEL-DSM 11',
 20701: 'To warn people in case of disasters or emergency',
 22359: 'Personal weather station',
 25443: 'Hybradio RDS-Net(for testing use, only)',
 25445: 'RDS2 – 9 bit AF lists ODA',
 25938: 'Enhanced RadioText (eRT)',
 27258: 'Warning receiver',
 29555: 'Enhanced early warning system',
 41234: 'NL _ Alert system',
 43281: 'Data FM Selective Multipoint Messaging',
 43983: 'RF Power Monitoring',
 50000: 'NRSC Song Title and Artist',
 50081: 'Personal Radio Service',
 50096: 'iTunes Tagging',
 50115: 'NAVTEQ Traffic Plus',
 50388: 'eEAS',
 50505: 'Smart Grid Broadcast Channel',
 50531: 'ID Logic',
 50855: 'Veil Enabled Interactive Device',
 50999: 'Utility Message Channel (UMC)',
 52083: 'CITIBUS 1',
 52119: 'ELECTRABEL-DSM 14',
 52257: 'CITIBUS 3',
 52550: 'RDS-TMC: ALERT-C',
 52551: 'RDS-TMC: ALERT-C',
 52638: 'ELECTRABEL-DSM 8',
 52843: 'Encrypted TTI using ALERT-Plus',
 57635: 'APS Gateway',
 57793: 'Action code',
 58137: 'ELECTRABEL-DSM 12',
 58385: 'Beacon downlink',
 58432: 'ELECTRABEL-DSM 15',
 58534: 'ELECTRABEL-DSM 19',
 58839: 'ELECTRABEL-DSM 6',
 59665: 'EAS open protocol',
 65407: 'RFT: Station logo',
 65408: 'RFT+ (work title)'}

RTPLUS = ['dummy_class', 'item.title', 'item.album', 'item.tracknumber', 'item.artist', 'item.composition', 'item.movement',
 'item.conductor', 'item.composer', 'item.band', 'item.comment', 'item.genre', 'info.news', 'info.news.local',
 'info.stockmarket', 'info.sport', 'info.lottery', 'info.horoscope', 'info.daily_diversion', 'info.health',
 'info.event', 'info.scene', 'info.cinema', 'info.tv', 'info.date_time', 'info.weather', 'info.traffic', 'info.alarm',
 'info.advertisement', 'info.url', 'info.other', 'stationname.short', 'stationname.long', 'programme.now',
 'programme.next', 'programme.part', 'programme.host', 'programme.editorial_staff', 'programme.frequency',
 'programme.homepage', 'programme.subchannel', 'phone.hotline', 'phone.studio', 'phone.other', 'sms.studio',
 'sms.other', 'email.hotline', 'email.studio', 'email.other', 'mms.other', 'chat', 'chat.centre', 'vote.question',
 'vote.centre', 'unknown', 'unknown', 'unknown', 'unknown', 'unknown', 'place', 'appointment', 'identifier',
 'purchase', 'get_data']

DI = ['dynamic_pty', 'compressed', 'artificial_head', 'stereo']

CALL3 = {39248: 'KEX',
 39249: 'KFH',
 39250: 'KFI',
 39251: 'KGA',
 39252: 'KGO',
 39253: 'KGU',
 39254: 'KGW',
 39255: 'KGY',
 39256: 'KID',
 39257: 'KIT',
 39258: 'KJR',
 39259: 'KLO',
 39260: 'KLZ',
 39261: 'KMA',
 39262: 'KMJ',
 39263: 'KNX',
 39264: 'KOA',
 39268: 'KQV',
 39269: 'KSL',
 39270: 'KUJ',
 39271: 'KVI',
 39272: 'KWG',
 39275: 'KYW',
 39277: 'WBZ',
 39278: 'WDZ',
 39279: 'WEW',
 39281: 'WGL',
 39282: 'WGN',
 39283: 'WGR',
 39285: 'WHA',
 39286: 'WHB',
 39287: 'WHK',
 39288: 'WHO',
 39290: 'WIP',
 39291: 'WJR',
 39292: 'WKY',
 39293: 'WLS',
 39294: 'WLW',
 39297: 'WOC',
 39299: 'WOL',
 39300: 'WOR',
 39304: 'WWJ',
 39305: 'WWL',
 39312: 'KDB',
 39313: 'KGB',
 39314: 'KOY',
 39315: 'KPQ',
 39316: 'KSD',
 39317: 'KUT',
 39318: 'KXL',
 39319: 'KXO',
 39321: 'WBT',
 39322: 'WGH',
 39323: 'WGY',
 39324: 'WHP',
 39325: 'WIL',
 39326: 'WMC',
 39327: 'WMT',
 39328: 'WOI',
 39329: 'WOW',
 39330: 'WRR',
 39331: 'WSB',
 39332: 'WSM',
 39333: 'KBW',
 39334: 'KCY',
 39335: 'KDF',
 39338: 'KHQ',
 39339: 'KOB',
 39347: 'WIS',
 39348: 'WJW',
 39349: 'WJZ',
 39353: 'WRC'}

LINKED = {45057: 'NPR-1',
 45058: 'CBC English - Radio One',
 45059: 'CBC English - Radio Two',
 45060: 'CBC French => Radio-Canada - Première Chaîne',
 45061: 'CBC French => Radio-Canada - Espace Musique',
 45062: 'CBC',
 45063: 'CBC',
 45064: 'CBC',
 45065: 'CBC',
 45066: 'NPR-2',
 45067: 'NPR-3',
 45068: 'NPR-4',
 45069: 'NPR-5',
 45070: 'NPR-6'}

DAB = {174928: '5A',
 176640: '5B',
 178352: '5C',
 180064: '5D',
 181936: '6A',
 183648: '6B',
 185360: '6C',
 187072: '6D',
 188928: '7A',
 190640: '7B',
 192352: '7C',
 194064: '7D',
 195936: '8A',
 197648: '8B',
 199360: '8C',
 201072: '8D',
 202928: '9A',
 204640: '9B',
 206352: '9C',
 208064: '9D',
 209936: '10A',
 211648: '10B',
 213360: '10C',
 215072: '10D',
 216928: '11A',
 218640: '11B',
 220352: '11C',
 222064: '11D',
 223936: '12A',
 225648: '12B',
 227360: '12C',
 229072: '12D',
 230784: '13A',
 232496: '13B',
 234208: '13C',
 235776: '13D',
 237488: '13E',
 239200: '13F',
 1452960: 'LA',
 1454672: 'LB',
 1456384: 'LC',
 1458096: 'LD',
 1459808: 'LE',
 1461520: 'LF',
 1463232: 'LG',
 1464944: 'LH',
 1466656: 'LI',
 1468368: 'LJ',
 1470080: 'LK',
 1471792: 'LL',
 1473504: 'LM',
 1475216: 'LN',
 1476928: 'LO',
 1478640: 'LP',
 1480352: 'LQ',
 1482064: 'LR',
 1483776: 'LS',
 1485488: 'LT',
 1487200: 'LU',
 1488912: 'LV',
 1490624: 'LW'}

G0 = [' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '\n', ' ', ' ', '\r', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ',
 ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '\xad', ' ', '!', '"', '#', '¤', '%', '&', "'", '(', ')', '*', '+', ',', '-',
 '.', '/', '0', '1', '2', '3', '4', '5', '6', '7', '8', '9', ':', ';', '<', '=', '>', '?', '@', 'A', 'B', 'C', 'D',
 'E', 'F', 'G', 'H', 'I', 'J', 'K', 'L', 'M', 'N', 'O', 'P', 'Q', 'R', 'S', 'T', 'U', 'V', 'W', 'X', 'Y', 'Z', '[',
 '\\', ']', '―', '_', '‖', 'a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i', 'j', 'k', 'l', 'm', 'n', 'o', 'p', 'q', 'r',
 's', 't', 'u', 'v', 'w', 'x', 'y', 'z', '{', '|', '}', '¯', ' ', 'á', 'à', 'é', 'è', 'í', 'ì', 'ó', 'ò', 'ú', 'ù',
 'Ñ', 'Ç', 'Ş', 'β', '¡', 'Ĳ', 'â', 'ä', 'ê', 'ë', 'î', 'ï', 'ô', 'ö', 'û', 'ü', 'ñ', 'ç', 'ş', 'ǧ', 'ı', 'ĳ', 'ª',
 'α', '©', '‰', 'Ǧ', 'ě', 'ň', 'ő', 'π', '€', '£', '$', '←', '↑', '→', '↓', 'º', '¹', '²', '³', '±', 'İ', 'ń', 'ű',
 'µ', '¿', '÷', '°', '¼', '½', '¾', '§', 'Á', 'À', 'É', 'È', 'Í', 'Ì', 'Ó', 'Ò', 'Ú', 'Ù', 'Ř', 'Č', 'Š', 'Ž', 'Ð',
 'Ŀ', 'Â', 'Ä', 'Ê', 'Ë', 'Î', 'Ï', 'Ô', 'Ö', 'Û', 'Ü', 'ř', 'č', 'š', 'ž', 'đ', 'ŀ', 'Ã', 'Å', 'Æ', 'Œ', 'ŷ', 'Ý',
 'Õ', 'Ø', 'Þ', 'Ŋ', 'Ŕ', 'Ć', 'Ś', 'Ź', 'Ŧ', 'ð', 'ã', 'å', 'æ', 'œ', 'ŵ', 'ý', 'õ', 'ø', 'þ', 'ŋ', 'ŕ', 'ć', 'ś',
 'ź', 'ŧ', ' ']

