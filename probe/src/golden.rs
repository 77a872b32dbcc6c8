//! Reference copy of the built-in tables (generated once from the reviewed data; see DESIGN.md, C17).
pub const NAMES: [&str; 24] = ["dark_skin", "light_skin", "blue_sky", "foliage", "blue_flower", "bluish_green", "orange", "purplish_blue", "moderate_red", "purple", "yellow_green", "orange_yellow", "blue", "green", "red", "yellow", "magenta", "cyan", "white_95", "neutral_80", "neutral_65", "neutral_50", "neutral_35", "black_20"];
pub const XYZ_D65: [[f64; 3]; 24] = [[11.147246585760028, 10.072588850988735, 6.804851374386517], [37.19472180091204, 34.56786664265503, 25.242625347936322], [17.645512685337042, 18.84074566946068, 34.487464479138445], [10.59473990130834, 13.327734791878315, 6.94529324077344], [24.805343199506265, 23.448877508726543, 43.92471065583598], [30.939729382054278, 42.658530611772086, 44.871428726929196], [37.16676979428489, 29.66842895218694, 6.336517033236169], [13.562804494926157, 11.813584921599741, 38.70051106273249], [27.669109819076628, 18.70249365578041, 13.532572766805648], [8.383799018583362, 6.35696530278317, 13.991893682157272], [33.656220304027734, 44.207355950053696, 11.323870868734163], [45.233538104391215, 42.06838377653778, 7.771898302018611], [7.985733783316091, 6.118583084127554, 28.349897691332995], [14.65073068359526, 23.44265566934717, 9.856457483347926], [19.573640762043475, 11.700774873453577, 5.028973177539573], [56.04967831264301, 59.42004549720342, 9.259158982980898], [29.44385339377756, 19.26135340175435, 31.07390090496208], [14.637434350390281, 19.962492706402244, 39.321383653972106], [86.2367362584048, 91.2369145498923, 95.43116616077563], [55.675520233910646, 58.86242819147057, 63.67905273788812], [34.03529536704602, 35.957858109436316, 39.1108946196652], [18.074449247287745, 19.128897801135334, 20.88219829511957], [8.450692858420268, 8.948097881616423, 9.876477785169474], [3.0525870031199163, 3.2007940392918073, 3.5405807103996314]];
pub const SRGB_LINEAR: [[f64; 3]; 24] = [[0.17247284808804936, 0.08375996281778827, 0.05758821411951679], [0.5480951786646517, 0.29852007247328005, 0.21701356201977864], [0.11024604375709807, 0.19675963261835547, 0.3359259289445263], [0.1038299699225482, 0.15023151101719798, 0.052124440704572235], [0.2243771993290572, 0.21774382897084835, 0.43026505767650913], [0.1231569941582209, 0.5190353221545729, 0.4045010284614307], [0.7167693781728625, 0.19904121231708954, 0.027155280754261622], [0.06495706688896141, 0.10624992529906249, 0.3925191707966928], [0.5416770325050475, 0.08835138865631986, 0.12029790125656933], [0.10420253846259331, 0.043819962336647825, 0.13959588305607562], [0.3546471793565885, 0.5078458707959075, 0.04825682365375397], [0.7804121554640977, 0.3540763299821872, 0.02152454287234553], [0.02337823992394608, 0.049163814407418294, 0.2916245628230766], [0.06526677857141028, 0.30187683530784926, 0.06452019502428188], [0.42936463091683996, 0.03192115360148204, 0.04018918364920619], [0.8567747693273551, 0.5753784312432811, 0.007872088455955224], [0.5031375186748466, 0.08891864045335673, 0.3055581979662044], [-0.028579159222773043, 0.24895271098216043, 0.38305659103459194], [0.9162740302512933, 0.915478239475918, 0.8706179827335493], [0.5818839055897118, 0.5911281193554688, 0.5840194986991657], [0.35519666623258717, 0.36096054687265866, 0.35900578510605574], [0.187552544609088, 0.19236263848920035, 0.191769352695837], [0.08705887389690448, 0.09006839523897228, 0.09084728643288391], [0.03206619302905776, 0.03193332011062272, 0.03259460922950661]];
pub const SRGB_ENCODED: [[f64; 3]; 24] = [[0.4522469362197354, 0.32042021831911327, 0.2661624759962084], [0.766187730821719, 0.5825165065131129, 0.5031984905202718], [0.3659563339972689, 0.4808696091621199, 0.614659337914014], [0.35556973251069424, 0.42389050283175117, 0.2530962268159985], [0.511013679614789, 0.5039803820035205, 0.6874077419279102], [0.3858360238605047, 0.7477577502630489, 0.668550706970759], [0.863319685762476, 0.48344999804726246, 0.17979657101551463], [0.282686316071753, 0.35953008635814937, 0.6595421020627585], [0.7621672796207701, 0.3288616283455509, 0.38154261674695505], [0.35618293687873864, 0.23160414007700747, 0.40946113657877026], [0.6299638825215701, 0.7405010587225633, 0.24335633582045169], [0.896453285511324, 0.6295042767588875, 0.15812853514637068], [0.165592485644283, 0.24568016555401645, 0.5763388307578408], [0.28335624780020113, 0.5854937135439172, 0.2817381508813474], [0.6867599897799528, 0.19616080544398784, 0.2214593525180396], [0.9341911865908171, 0.7829789649469766, 0.08515973850960804], [0.7374196799359161, 0.3298866066652869, 0.5887366980177826], [-0.3692427371582277, 0.5360639674215203, 0.6523136147830153], [0.9622546888058577, 0.9618864733354499, 0.9408195318007984], [0.7869137520154292, 0.7924611553472295, 0.7881998506719582], [0.6304058813319863, 0.6350184177551869, 0.6334589696225803], [0.4702753570401064, 0.4758470747652476, 0.4751642762857606], [0.3265117298287167, 0.3319524820179773, 0.3333432636855851], [0.19663567417873806, 0.1962006877041499, 0.1983552262664967]];
pub const ITUR_BT709_LINEAR: [[f64; 3]; 24] = [[0.17249490347892138, 0.08374227514712124, 0.05758080235387228], [0.5481667407682652, 0.29846405754743266, 0.21698832962517695], [0.11027309893045667, 0.19674954267162642, 0.33590810825034817], [0.1038440035504753, 0.1502212517021327, 0.05211812526913688], [0.2244212851765104, 0.21772204984218532, 0.43024060430088906], [0.12318848402533267, 0.5190251607463761, 0.4044764423420927], [0.7168518458938503, 0.19896667759944092, 0.027134324567005527], [0.06498143726003208, 0.10624441401292753, 0.39250138549032537], [0.5417436772189704, 0.08829508519892942, 0.12027900933766143], [0.10422040354502371, 0.043809504148107525, 0.13958750009698054], [0.35468949137685446, 0.5078104984296019, 0.0482402512981495], [0.7805015971542351, 0.35399563531692774, 0.02150039458438013], [0.02339352409571871, 0.04916222996636718, 0.29161231328033893], [0.06527697549280204, 0.3018711835934321, 0.06451254495077542], [0.42941506768891513, 0.031876259266901685, 0.04017676114772015], [0.8568722800666566, 0.575290451538241, 0.007843951848158753], [0.5032078177049428, 0.08886683223210862, 0.3055331971285767], [-0.028565807124527942, 0.24895749825770985, 0.38303975508240495], [0.9164156618396091, 0.9153872638958822, 0.8705515234548199], [0.5819751978513021, 0.5910704535584296, 0.5839759933038484], [0.355252501874878, 0.3609253526484511, 0.3589791315799653], [0.18758212273496533, 0.19234406651318733, 0.19175517404444858], [0.08707268290479298, 0.09005978152377786, 0.09084062603452453], [0.032071241713950954, 0.03193014104438753, 0.03259220378871087]];
pub const ITUR_BT709_ENCODED: [[f64; 3]; 24] = [[0.3993644017215179, 0.2610168540257426, 0.205174402005976], [0.7395102952183528, 0.5388214343920257, 0.45357860019282126], [0.30848253863294806, 0.42976033811410963, 0.5736620269374747], [0.29761518055945035, 0.36930286182730054, 0.19183230535508214], [0.46201763454586087, 0.4544186351516859, 0.6529133923354451], [0.3293060827811606, 0.7191491389455762, 0.6323068594181093], [0.8471084601250447, 0.43243340389220253, 0.11781096847739592], [0.2221832461990421, 0.30171485254591945, 0.6224832115074156], [0.735074656929567, 0.26969659847479255, 0.32472405668783355], [0.2982614561124568, 0.16996975314739135, 0.3540839005775944], [0.590333583181096, 0.7111462876444029, 0.18188722988331088], [0.8840280282247942, 0.5897264320288255, 0.096253391447573], [0.1038106398468171, 0.18429042810792182, 0.5321903180754712], [0.22283976552281895, 0.5420876908457765, 0.2211382532748171], [0.6522638094017952, 0.1341084411513451, 0.159694030844692], [0.9262031561861455, 0.7579330975904803, 0.03529778331671439], [0.7078336695491997, 0.27076904972934457, 0.5455757676250202], [-0.12854613206037574, 0.4888331007447948, 0.6146042458826471], [0.9576698568857147, 0.9571360863323648, 0.933536013853776], [0.7623996816206517, 0.7684318315074827, 0.7637310718743684], [0.5908257594384415, 0.5957611377319919, 0.5940727657323112], [0.41852799003983243, 0.4243993145482151, 0.42367759419594975], [0.26739079928520804, 0.27299456312093373, 0.2744425034520944], [0.13474901591723523, 0.13428567363664037, 0.136450094805407]];
pub const ALEXA_WIDE_GAMUT_LINEAR: [[f64; 3]; 24] = [[0.13721305827994587, 0.08255889353293429, 0.06346925275550702], [0.44813197681809874, 0.29379537561861685, 0.23486309768477623], [0.15577572483909544, 0.21724220300242536, 0.31128328293699076], [0.11134017265768903, 0.13182202387656708, 0.06761314286440234], [0.2427523506759497, 0.2541270785456037, 0.3950447042059236], [0.2579133050244437, 0.48496058871134823, 0.4166336409960359], [0.5090999349082573, 0.1887989538253664, 0.06468101866648278], [0.10821252548573074, 0.15342960858197086, 0.3442202187491822], [0.37769731524986383, 0.1104327508050097, 0.12284061508559738], [0.09132275759216385, 0.062329728029740794, 0.12472232414015044], [0.3661601235050959, 0.42397975804092886, 0.12194190253143448], [0.5907138926036819, 0.3131276271365884, 0.08415533790588155], [0.05662446296374635, 0.08946452951075959, 0.25087927926929404], [0.12927205142985937, 0.25277479740910963, 0.09984201983259647], [0.28366336643329604, 0.04792580878193203, 0.04570254449674461], [0.697518460534605, 0.4891109771300752, 0.10702072743386011], [0.37165597315968707, 0.14098694440808196, 0.2767287855372529], [0.08687489511972099, 0.2615521235016634, 0.3559399572274038], [0.9116481346467811, 0.9077961051823752, 0.8780180537056987], [0.5846340720227277, 0.5895281436235511, 0.5849960404043221], [0.3571534928423665, 0.360385128213986, 0.359203500928522], [0.1892801233938071, 0.1920684219199426, 0.1917700562555327], [0.08825039636889044, 0.09008259835847898, 0.09065887741383302], [0.032084024421541846, 0.03204796243792227, 0.032484604215990184]];
pub const ALEXA_WIDE_GAMUT_ENCODED: [[f64; 3]; 24] = [[0.36351897610664047, 0.31344739248775066, 0.2884717257632179], [0.4856878789624575, 0.4415163730722943, 0.41831472007065196], [0.37631614725157636, 0.41027712981833814, 0.44753620302219266], [0.34267710825987585, 0.35949739037504136, 0.29440865070738226], [0.42172709457219393, 0.4264636406494552, 0.47244809017693645], [0.42799501209014446, 0.4939988405806037, 0.4780306917038535], [0.4991167856972539, 0.395881535291465, 0.290242040284021], [0.3398597948422812, 0.374780478633935, 0.4580318007951505], [0.46774194784300865, 0.3418673089438278, 0.35244365083215523], [0.32321885992648974, 0.2867798872760932, 0.3539603585269028], [0.46449377798979585, 0.47986597220311095, 0.35171163315091], [0.5148093842938106, 0.4481518374069246, 0.31529491839268675], [0.2778836130982208, 0.3212199882837844, 0.42513240687133724], [0.357541379797264, 0.42591136127684426, 0.3319345572773785], [0.4378677015057388, 0.26271955823770193, 0.25847387257853904], [0.5323931615585678, 0.49489634287077733, 0.33876649116155866], [0.4660533370441063, 0.3662471667469272, 0.43529700935739074], [0.3183707796385594, 0.4294464593747823, 0.46153194498824057], [0.5607981907907108, 0.5603482783590344, 0.5568051064078043], [0.5137162461198337, 0.5145970612131674, 0.5137816397818722], [0.4618879364944578, 0.46283022132067, 0.4624866392070184], [0.3961418302509749, 0.39763789645627245, 0.39747880035955235], [0.3198935657112019, 0.321888976266372, 0.3225089982243838], [0.22800335552005788, 0.22791001312315196, 0.22903478987725567]];
pub const ACES_CC_LINEAR: [[f64; 3]; 24] = [[0.13695810443606254, 0.08964307311572749, 0.06272858482715545], [0.4478249818573041, 0.3149718314105188, 0.23247310647755604], [0.15009882625904508, 0.19235655004649885, 0.3164275480332422], [0.11729993098577586, 0.14580395429065438, 0.06365190972261126], [0.23155197166042366, 0.2207271357227611, 0.4033338780468319], [0.27110385613597143, 0.4899482073797471, 0.41094231122995745], [0.5086118750649281, 0.2331698958046468, 0.05961268027447067], [0.09404306065369422, 0.10677194102304885, 0.3552283112429344], [0.36775992570937904, 0.12041978028527855, 0.12550041693398445], [0.08522824151419123, 0.04918145974036089, 0.1286371600077798], [0.3929092651563749, 0.4916071477920775, 0.10358518675719552], [0.6002674688854348, 0.37988469487619647, 0.07255143736075023], [0.04445598153375761, 0.05025163619261017, 0.26023136397277674], [0.14596015178349853, 0.2824762014163235, 0.08986956347784143], [0.2759802501094602, 0.059804442076006104, 0.04726636213334711], [0.7219627456296502, 0.5882304883207474, 0.08582405375142907], [0.35280469976454976, 0.12045778606467195, 0.28645153876985624], [0.08494697796337083, 0.23112996839961564, 0.36029048054647733], [0.9139665195560862, 0.9149242027233517, 0.8762781577612822], [0.585169735947568, 0.5903490907812686, 0.5846924283153154], [0.35735838517098, 0.36050500749452574, 0.35911055636059835], [0.18939765838707356, 0.19200368592591352, 0.19173253748538358], [0.08826416614127336, 0.08985999231832745, 0.09068005187529059], [0.03204693685697445, 0.03194791939720173, 0.032510844411955474]];
pub const ACES_CC_ENCODED: [[f64; 3]; 24] = [[0.39108484843215663, 0.3561835569600702, 0.32678463616858583], [0.48864194726597154, 0.45966294042580547, 0.434653866073646], [0.3986292580220558, 0.4190556427879306, 0.4600426433071647], [0.378326145528523, 0.39623868447845423, 0.3279878772602458], [0.43432693759851976, 0.4303844696050876, 0.4800254848846674], [0.44731264492508654, 0.49604458644595006, 0.48156437130635243], [0.4991231193814584, 0.4349003105939534, 0.32258921522259554], [0.36012929810686367, 0.3705824469749406, 0.4695672644027331], [0.47242215667485166, 0.38048768809055056, 0.3838906428183716], [0.35202485023610675, 0.3067499067351356, 0.3859234797907693], [0.47786918341131474, 0.4963229336327364, 0.3680873064887011], [0.5127669742724736, 0.4750932359439697, 0.338764155645622], [0.29843158426689403, 0.30852251035462663, 0.4439421664486927], [0.39632685281977426, 0.45069641728815607, 0.3563913473048509], [0.44878064684158125, 0.3228536790662613, 0.3034793174561798], [0.5279678252795756, 0.5110989421792222, 0.35259850777040713], [0.4690035208044542, 0.38051367315060086, 0.4518472027865601], [0.3517526503343788, 0.43417672588094397, 0.47073244515178975], [0.5473865994591263, 0.5474728386294725, 0.5439189956403824], [0.5106693528889652, 0.5113949897221505, 0.5106021583249294], [0.4700595631072548, 0.4707814614196385, 0.47046232693994167], [0.41777913238055486, 0.4189044470305768, 0.41878807601646323], [0.3549070579645796, 0.3563825769839035, 0.35713065220468154], [0.27148003861354925, 0.27122521627788276, 0.2726635181623472]];
pub const ACES_CCT_LINEAR: [[f64; 3]; 24] = [[0.13695810443606254, 0.08964307311572749, 0.06272858482715545], [0.4478249818573041, 0.3149718314105188, 0.23247310647755604], [0.15009882625904508, 0.19235655004649885, 0.3164275480332422], [0.11729993098577586, 0.14580395429065438, 0.06365190972261126], [0.23155197166042366, 0.2207271357227611, 0.4033338780468319], [0.27110385613597143, 0.4899482073797471, 0.41094231122995745], [0.5086118750649281, 0.2331698958046468, 0.05961268027447067], [0.09404306065369422, 0.10677194102304885, 0.3552283112429344], [0.36775992570937904, 0.12041978028527855, 0.12550041693398445], [0.08522824151419123, 0.04918145974036089, 0.1286371600077798], [0.3929092651563749, 0.4916071477920775, 0.10358518675719552], [0.6002674688854348, 0.37988469487619647, 0.07255143736075023], [0.04445598153375761, 0.05025163619261017, 0.26023136397277674], [0.14596015178349853, 0.2824762014163235, 0.08986956347784143], [0.2759802501094602, 0.059804442076006104, 0.04726636213334711], [0.7219627456296502, 0.5882304883207474, 0.08582405375142907], [0.35280469976454976, 0.12045778606467195, 0.28645153876985624], [0.08494697796337083, 0.23112996839961564, 0.36029048054647733], [0.9139665195560862, 0.9149242027233517, 0.8762781577612822], [0.585169735947568, 0.5903490907812686, 0.5846924283153154], [0.35735838517098, 0.36050500749452574, 0.35911055636059835], [0.18939765838707356, 0.19200368592591352, 0.19173253748538358], [0.08826416614127336, 0.08985999231832745, 0.09068005187529059], [0.03204693685697445, 0.03194791939720173, 0.032510844411955474]];
pub const ACES_CCT_ENCODED: [[f64; 3]; 24] = [[0.39108484843215663, 0.3561835569600702, 0.32678463616858583], [0.48864194726597154, 0.45966294042580547, 0.434653866073646], [0.3986292580220558, 0.4190556427879306, 0.4600426433071647], [0.378326145528523, 0.39623868447845423, 0.3279878772602458], [0.43432693759851976, 0.4303844696050876, 0.4800254848846674], [0.44731264492508654, 0.49604458644595006, 0.48156437130635243], [0.4991231193814584, 0.4349003105939534, 0.32258921522259554], [0.36012929810686367, 0.3705824469749406, 0.4695672644027331], [0.47242215667485166, 0.38048768809055056, 0.3838906428183716], [0.35202485023610675, 0.3067499067351356, 0.3859234797907693], [0.47786918341131474, 0.4963229336327364, 0.3680873064887011], [0.5127669742724736, 0.4750932359439697, 0.338764155645622], [0.29843158426689403, 0.30852251035462663, 0.4439421664486927], [0.39632685281977426, 0.45069641728815607, 0.3563913473048509], [0.44878064684158125, 0.3228536790662613, 0.3034793174561798], [0.5279678252795756, 0.5110989421792222, 0.35259850777040713], [0.4690035208044542, 0.38051367315060086, 0.4518472027865601], [0.3517526503343788, 0.43417672588094397, 0.47073244515178975], [0.5473865994591263, 0.5474728386294725, 0.5439189956403824], [0.5106693528889652, 0.5113949897221505, 0.5106021583249294], [0.4700595631072548, 0.4707814614196385, 0.47046232693994167], [0.41777913238055486, 0.4189044470305768, 0.41878807601646323], [0.3549070579645796, 0.3563825769839035, 0.35713065220468154], [0.27148003861354925, 0.27122521627788276, 0.2726635181623472]];
pub const ACES_CG_LINEAR: [[f64; 3]; 24] = [[0.13695810443606254, 0.08964307311572749, 0.06272858482715545], [0.4478249818573041, 0.3149718314105188, 0.23247310647755604], [0.15009882625904508, 0.19235655004649885, 0.3164275480332422], [0.11729993098577586, 0.14580395429065438, 0.06365190972261126], [0.23155197166042366, 0.2207271357227611, 0.4033338780468319], [0.27110385613597143, 0.4899482073797471, 0.41094231122995745], [0.5086118750649281, 0.2331698958046468, 0.05961268027447067], [0.09404306065369422, 0.10677194102304885, 0.3552283112429344], [0.36775992570937904, 0.12041978028527855, 0.12550041693398445], [0.08522824151419123, 0.04918145974036089, 0.1286371600077798], [0.3929092651563749, 0.4916071477920775, 0.10358518675719552], [0.6002674688854348, 0.37988469487619647, 0.07255143736075023], [0.04445598153375761, 0.05025163619261017, 0.26023136397277674], [0.14596015178349853, 0.2824762014163235, 0.08986956347784143], [0.2759802501094602, 0.059804442076006104, 0.04726636213334711], [0.7219627456296502, 0.5882304883207474, 0.08582405375142907], [0.35280469976454976, 0.12045778606467195, 0.28645153876985624], [0.08494697796337083, 0.23112996839961564, 0.36029048054647733], [0.9139665195560862, 0.9149242027233517, 0.8762781577612822], [0.585169735947568, 0.5903490907812686, 0.5846924283153154], [0.35735838517098, 0.36050500749452574, 0.35911055636059835], [0.18939765838707356, 0.19200368592591352, 0.19173253748538358], [0.08826416614127336, 0.08985999231832745, 0.09068005187529059], [0.03204693685697445, 0.03194791939720173, 0.032510844411955474]];
pub const ACES_CG_ENCODED: [[f64; 3]; 24] = [[0.13695810443606254, 0.08964307311572749, 0.06272858482715545], [0.4478249818573041, 0.3149718314105188, 0.23247310647755604], [0.15009882625904508, 0.19235655004649885, 0.3164275480332422], [0.11729993098577586, 0.14580395429065438, 0.06365190972261126], [0.23155197166042366, 0.2207271357227611, 0.4033338780468319], [0.27110385613597143, 0.4899482073797471, 0.41094231122995745], [0.5086118750649281, 0.2331698958046468, 0.05961268027447067], [0.09404306065369422, 0.10677194102304885, 0.3552283112429344], [0.36775992570937904, 0.12041978028527855, 0.12550041693398445], [0.08522824151419123, 0.04918145974036089, 0.1286371600077798], [0.3929092651563749, 0.4916071477920775, 0.10358518675719552], [0.6002674688854348, 0.37988469487619647, 0.07255143736075023], [0.04445598153375761, 0.05025163619261017, 0.26023136397277674], [0.14596015178349853, 0.2824762014163235, 0.08986956347784143], [0.2759802501094602, 0.059804442076006104, 0.04726636213334711], [0.7219627456296502, 0.5882304883207474, 0.08582405375142907], [0.35280469976454976, 0.12045778606467195, 0.28645153876985624], [0.08494697796337083, 0.23112996839961564, 0.36029048054647733], [0.9139665195560862, 0.9149242027233517, 0.8762781577612822], [0.585169735947568, 0.5903490907812686, 0.5846924283153154], [0.35735838517098, 0.36050500749452574, 0.35911055636059835], [0.18939765838707356, 0.19200368592591352, 0.19173253748538358], [0.08826416614127336, 0.08985999231832745, 0.09068005187529059], [0.03204693685697445, 0.03194791939720173, 0.032510844411955474]];
pub const ACES_LINEAR: [[f64; 3]; 24] = [[0.11813796574544165, 0.0891912719956201, 0.06242673769505931], [0.3938458639852047, 0.31304147083691036, 0.23161517202325171], [0.1832997194200379, 0.2023166719646095, 0.31684724915587875], [0.11251858889949737, 0.1366787894463728, 0.06368613631405627], [0.25817888776592957, 0.23865724015175271, 0.40354809414578485], [0.32480579070819565, 0.4725973958031776, 0.4120330574571226], [0.3962859795061165, 0.22892752873974995, 0.057830167747970965], [0.13863392503369312, 0.129937866319511, 0.35567150112142787], [0.2932655979666565, 0.1319846492580961, 0.12414126870884355], [0.087270606011187, 0.05838690574343417, 0.12855720668970025], [0.35938268924375083, 0.4501166057403381, 0.10354828587517875], [0.48278797633792686, 0.36039577179045434, 0.07087242154199656], [0.08063021624732153, 0.07005229250457384, 0.2605785008306283], [0.15597353959477933, 0.2579604807458101, 0.09033489569823329], [0.20808978890077248, 0.06829012608559452, 0.04605298445756076], [0.5989060151504431, 0.5462239102053881, 0.084331117607614], [0.3092452085642709, 0.14672376460270858, 0.28541671923057926], [0.15063209206266956, 0.23692102664243322, 0.3612920981800903], [0.9079252887111878, 0.9111892801723334, 0.8762254547582219], [0.5858201449051323, 0.5895766784544119, 0.5847125600251565], [0.3580881745627414, 0.3602308379852244, 0.35912585161170857], [0.19014688540054542, 0.19186104607993165, 0.19174653118246895], [0.08888455382108736, 0.08986685181272316, 0.09069010086390472], [0.03210902730716806, 0.03200613349874836, 0.03251114201903487]];
pub const ACES_ENCODED: [[f64; 3]; 24] = [[0.11813796574544165, 0.0891912719956201, 0.06242673769505931], [0.3938458639852047, 0.31304147083691036, 0.23161517202325171], [0.1832997194200379, 0.2023166719646095, 0.31684724915587875], [0.11251858889949737, 0.1366787894463728, 0.06368613631405627], [0.25817888776592957, 0.23865724015175271, 0.40354809414578485], [0.32480579070819565, 0.4725973958031776, 0.4120330574571226], [0.3962859795061165, 0.22892752873974995, 0.057830167747970965], [0.13863392503369312, 0.129937866319511, 0.35567150112142787], [0.2932655979666565, 0.1319846492580961, 0.12414126870884355], [0.087270606011187, 0.05838690574343417, 0.12855720668970025], [0.35938268924375083, 0.4501166057403381, 0.10354828587517875], [0.48278797633792686, 0.36039577179045434, 0.07087242154199656], [0.08063021624732153, 0.07005229250457384, 0.2605785008306283], [0.15597353959477933, 0.2579604807458101, 0.09033489569823329], [0.20808978890077248, 0.06829012608559452, 0.04605298445756076], [0.5989060151504431, 0.5462239102053881, 0.084331117607614], [0.3092452085642709, 0.14672376460270858, 0.28541671923057926], [0.15063209206266956, 0.23692102664243322, 0.3612920981800903], [0.9079252887111878, 0.9111892801723334, 0.8762254547582219], [0.5858201449051323, 0.5895766784544119, 0.5847125600251565], [0.3580881745627414, 0.3602308379852244, 0.35912585161170857], [0.19014688540054542, 0.19186104607993165, 0.19174653118246895], [0.08888455382108736, 0.08986685181272316, 0.09069010086390472], [0.03210902730716806, 0.03200613349874836, 0.03251114201903487]];
pub const ACES_PROXY_LINEAR: [[f64; 3]; 24] = [[0.13695810443606254, 0.08964307311572749, 0.06272858482715545], [0.4478249818573041, 0.3149718314105188, 0.23247310647755604], [0.15009882625904508, 0.19235655004649885, 0.3164275480332422], [0.11729993098577586, 0.14580395429065438, 0.06365190972261126], [0.23155197166042366, 0.2207271357227611, 0.4033338780468319], [0.27110385613597143, 0.4899482073797471, 0.41094231122995745], [0.5086118750649281, 0.2331698958046468, 0.05961268027447067], [0.09404306065369422, 0.10677194102304885, 0.3552283112429344], [0.36775992570937904, 0.12041978028527855, 0.12550041693398445], [0.08522824151419123, 0.04918145974036089, 0.1286371600077798], [0.3929092651563749, 0.4916071477920775, 0.10358518675719552], [0.6002674688854348, 0.37988469487619647, 0.07255143736075023], [0.04445598153375761, 0.05025163619261017, 0.26023136397277674], [0.14596015178349853, 0.2824762014163235, 0.08986956347784143], [0.2759802501094602, 0.059804442076006104, 0.04726636213334711], [0.7219627456296502, 0.5882304883207474, 0.08582405375142907], [0.35280469976454976, 0.12045778606467195, 0.28645153876985624], [0.08494697796337083, 0.23112996839961564, 0.36029048054647733], [0.9139665195560862, 0.9149242027233517, 0.8762781577612822], [0.585169735947568, 0.5903490907812686, 0.5846924283153154], [0.35735838517098, 0.36050500749452574, 0.35911055636059835], [0.18939765838707356, 0.19200368592591352, 0.19173253748538358], [0.08826416614127336, 0.08985999231832745, 0.09068005187529059], [0.03204693685697445, 0.03194791939720173, 0.032510844411955474]];
pub const ACES_PROXY_ENCODED: [[f64; 3]; 24] = [[0.3978494623655914, 0.3675464320625611, 0.3421309872922776], [0.4809384164222874, 0.45650048875855326, 0.43499511241446726], [0.40371456500488756, 0.42130987292277616, 0.45650048875855326], [0.386119257086999, 0.40175953079178883, 0.34310850439882695], [0.4340175953079179, 0.4310850439882698, 0.47409579667644186], [0.44574780058651026, 0.48778103616813295, 0.4750733137829912], [0.4897360703812317, 0.43499511241446726, 0.3391984359726295], [0.3704789833822092, 0.38025415444770283, 0.46432062561094817], [0.46725317693059626, 0.38807429130009774, 0.39100684261974583], [0.36363636363636365, 0.3255131964809384, 0.39296187683284456], [0.47214076246334313, 0.48778103616813295, 0.37732160312805474], [0.501466275659824, 0.46920821114369504, 0.35288367546432065], [0.3176930596285435, 0.32649071358748777, 0.44281524926686217], [0.40175953079178883, 0.44868035190615835, 0.3675464320625611], [0.4467253176930596, 0.3391984359726295, 0.3225806451612903], [0.5141739980449658, 0.5004887585532747, 0.364613880742913], [0.46432062561094817, 0.38807429130009774, 0.4496578690127077], [0.36363636363636365, 0.4340175953079179, 0.46529814271749753], [0.5317693059628543, 0.5317693059628543, 0.5278592375366569], [0.4995112414467253, 0.5004887585532747, 0.4995112414467253], [0.46529814271749753, 0.46529814271749753, 0.46529814271749753], [0.4203323558162268, 0.42130987292277616, 0.42130987292277616], [0.36656891495601174, 0.3675464320625611, 0.36852394916911047], [0.29521016617790813, 0.29521016617790813, 0.2961876832844575]];
pub const DCI_P3_P_LINEAR: [[f64; 3]; 24] = [[0.14169886816738309, 0.08754999916341415, 0.06302370135600684], [0.4608167811879015, 0.30809981124463187, 0.2333380994152311], [0.15047890907674275, 0.20859457096687267, 0.315639016438189], [0.10990672176933744, 0.13293568401376407, 0.06399033249759134], [0.24134349804824645, 0.2473621653660467, 0.4024107903166389], [0.23979031625634195, 0.47039980174452867, 0.41064521635068707], [0.5354315655274001, 0.218561136010763, 0.0614192479145874], [0.10389397505855788, 0.1419829790383336, 0.3538830558842268], [0.39926642740291374, 0.13041738252871912, 0.12627813124463336], [0.0934507389708156, 0.061945057067703486, 0.1283374170802857], [0.362532653232157, 0.4321739116696681, 0.10530048844174375], [0.6139552741348451, 0.3439974312896601, 0.07488098203633571], [0.053408719992977874, 0.08019572101651723, 0.25911057553249683], [0.11981575427195124, 0.24969515343473248, 0.09043636776539472], [0.3027338471679424, 0.0661035855508059, 0.04803518690934686], [0.7156970704823828, 0.5210763454324527, 0.08889551478368633], [0.3898378134723985, 0.15300696833472574, 0.2863360469388516], [0.07242215358682969, 0.24420496570164277, 0.3591372638713173], [0.912062852226696, 0.9093372447057905, 0.8764778515951248], [0.5842539717932463, 0.5893425040392044, 0.584705269766346], [0.35689622545462485, 0.360186806316325, 0.3591076410659031], [0.18905566147355818, 0.19186709072603425, 0.19172548534832345], [0.08810022577441225, 0.08991798919114553, 0.09067055853471281], [0.032085421435958814, 0.03203248748232378, 0.03250821228604964]];
pub const DCI_P3_P_ENCODED: [[f64; 3]; 24] = [[0.47163112063826895, 0.39190016007810474, 0.3453589640238724], [0.7423142579719177, 0.6358326988833405, 0.5713701660359668], [0.4826635186865713, 0.5472596922845063, 0.6417723931656621], [0.427723561803283, 0.46019200268274535, 0.3473867247231237], [0.578831496886166, 0.5843413826657226, 0.704611704137636], [0.5773959161909152, 0.7482139812599342, 0.7101226618460952], [0.7864214912929637, 0.5571723960297417, 0.3419505188088999], [0.41856751932948283, 0.4719946025907752, 0.6706323922671166], [0.7024890127521866, 0.45681926979269105, 0.4511874170695056], [0.4018558404358934, 0.3430735021639417, 0.45400324750541626], [0.6768900445803444, 0.724216928053093, 0.4207379502306498], [0.828922882700759, 0.663364153792799, 0.3690336541573191], [0.324055998729935, 0.37889571248627896, 0.5948635535646773], [0.44216287891584843, 0.586454953313113, 0.39681995574031925], [0.6315504795194198, 0.35175509046964215, 0.31110536044081244], [0.8792788575826169, 0.7782442258528968, 0.3942058082724841], [0.6960616038763937, 0.485766306887853, 0.6181674929297778], [0.36432503349478984, 0.5814614915085607, 0.6744446817798694], [0.9652168849236504, 0.9641064581853545, 0.9505550795083356], [0.8132637465290877, 0.8159807423214469, 0.813505301837173], [0.6728228803452784, 0.6752020767983851, 0.6744232849356303], [0.5269449713069417, 0.5299451938769073, 0.529794728867131], [0.3928456344030331, 0.3959435771890609, 0.39721486845943127], [0.2663808375063936, 0.2662117245758282, 0.26772544487344313]];
pub const DCI_P3_LINEAR: [[f64; 3]; 24] = [[0.16142820136106983, 0.08687476866669665, 0.061131565968838605], [0.5170149895188225, 0.3072762324451765, 0.22760916194364836], [0.12128614685125466, 0.1937117622600668, 0.3233380475525971], [0.10940052328990008, 0.14857024629617213, 0.05922122144542951], [0.22402027529898083, 0.21798562469166533, 0.4133172364288814], [0.172077753710152, 0.505024997015967, 0.40717276401588476], [0.6522371156205571, 0.21724283138860911, 0.049390520243757736], [0.07068159516963307, 0.10482271695227341, 0.36888224874434633], [0.485537890501885, 0.10432034724249714, 0.1251439625541921], [0.0969176743933366, 0.04595605156452655, 0.1329006607155964], [0.37276040620044204, 0.502342313409119, 0.08256583326842509], [0.7269012120986106, 0.36902286522926003, 0.05513655328866103], [0.027082220947711344, 0.04828243510814141, 0.2717580759887848], [0.09415642620820713, 0.2934818325219457, 0.07966066066640526], [0.3800994301948435, 0.0459231250601958, 0.046023995030122486], [0.8207804532266642, 0.5851675161249716, 0.057937023367669566], [0.4522290403688686, 0.10353370416781582, 0.2949554036540971], [0.006144858033733436, 0.23916902021306036, 0.36774681115128705], [0.9161972551102471, 0.915417928669595, 0.8741619032489385], [0.5830895049654612, 0.5907482033010633, 0.5843956069149527], [0.35595253148138184, 0.3607246736994777, 0.3590421858864343], [0.1881718621020786, 0.192175743338108, 0.1917243625848068], [0.08744494704136158, 0.08995434030041206, 0.090729107388935], [0.032055072486571266, 0.03193521013746897, 0.032541451750316266]];
pub const DCI_P3_ENCODED: [[f64; 3]; 24] = [[0.4958801173794741, 0.390734876349898, 0.34133360418000874], [0.7759056206358945, 0.6351784532882739, 0.5659333463380202], [0.4442420780390736, 0.531899066005905, 0.6477485746038408], [0.4269648043702168, 0.48029962485886096, 0.3371909484357309], [0.5624844363278636, 0.5566076549223975, 0.7118963024926797], [0.5082155771920054, 0.7689348899733311, 0.7078070635496144], [0.8484329046749585, 0.5558774043680639, 0.31445262974161126], [0.36093210656158936, 0.42000269935816587, 0.6814254787566864], [0.7573848041244318, 0.4192273661651747, 0.4496244943741508], [0.4075256924224795, 0.3058555927081089, 0.46014536720870486], [0.6841720032102755, 0.7673613271382312, 0.3831640517275511], [0.8845477966066498, 0.6815253734848107, 0.3280486939333941], [0.2495664838967373, 0.31172028428822995, 0.6058677960843875], [0.40302028893864367, 0.6240559768823697, 0.37792141456373435], [0.6893217900597753, 0.3057712899536439, 0.30602943306880753], [0.9268519897901326, 0.8137525983089686, 0.33435969074793376], [0.7369627837574025, 0.4180086696728322, 0.6252592672017613], [0.14106771639736554, 0.5768200602053478, 0.680617997710532], [0.9668973709267855, 0.9665809602282435, 0.9495882602025154], [0.81263993980609, 0.8167287615708632, 0.8133395684809464], [0.6721380699751363, 0.675589698778723, 0.6743760021626471], [0.5259961558868631, 0.5302729208921695, 0.5297935355839652], [0.3917192298240028, 0.3960051341289919, 0.39731350049381614], [0.2662838999677219, 0.26590049478696043, 0.2678306993674999]];
pub const PRO_PHOTO_RGB_LINEAR: [[f64; 3]; 24] = [[0.12709679897094614, 0.09178838715978638, 0.06226885197254287], [0.4193708999860788, 0.32091480683909657, 0.23116122458830748], [0.17016715399300097, 0.19155795918096058, 0.31746710420268065], [0.11225108010816495, 0.1433936819305291, 0.06343867743483089], [0.25048944146214414, 0.22333933108413087, 0.4043294715437656], [0.2940685047159222, 0.47769297481997636, 0.41218937632915653], [0.44926154507291644, 0.24548011565908393, 0.05676367986152219], [0.12375616180809378, 0.10891074567581482, 0.3567243522637845], [0.33248681376068834, 0.13329322974777116, 0.12380931990663978], [0.08891610602449813, 0.05194434545646795, 0.12883550295769916], [0.3638169124606415, 0.4820935453901122, 0.10226942414913828], [0.5339326450095647, 0.3878257016085181, 0.06939156118126817], [0.0688409807279124, 0.05231805867092749, 0.2614496023702935], [0.14421712054432018, 0.2732153820721387, 0.08984705705933105], [0.24324028855276578, 0.07086617293682926, 0.045681804491086275], [0.6463646811280651, 0.5894706859438827, 0.08225439874509664], [0.3377415904860718, 0.13436939651908902, 0.2857582121766151], [0.12066180175112312, 0.225000177689551, 0.36210512859164656], [0.9099376263205468, 0.9144012623456697, 0.8763217961993083], [0.5853924626646813, 0.589992724561563, 0.5848597190456524], [0.3577229249594984, 0.36031146689405336, 0.3592240125965644], [0.18977953344770487, 0.19185771165540005, 0.19180216601826958], [0.08860357349973344, 0.08978285854084203, 0.09072055049724005], [0.032101397988576225, 0.03195809982248604, 0.03252202543683037]];
pub const PRO_PHOTO_RGB_ENCODED: [[f64; 3]; 24] = [[0.3179047426956582, 0.2653205971032641, 0.21387029927319523], [0.617067089148111, 0.5318290872950678, 0.4432200893374902], [0.37385977641610896, 0.39928030603324555, 0.5286472305916637], [0.29670719060702233, 0.33994257877765627, 0.21609323839387345], [0.4634406500398127, 0.43482449990636457, 0.6046717313754703], [0.5066331679057654, 0.6633601269851497, 0.6111740211831047], [0.6411269393315109, 0.45826868062775233, 0.2031500660176702], [0.3132351291549346, 0.29176909969296855, 0.5640219123013935], [0.5423993065437003, 0.32642414323742375, 0.3133098701912184], [0.2606755158776965, 0.19337937600949281, 0.32031354916295024], [0.5702247278530532, 0.6667481858745149, 0.28174666473212484], [0.7056731560108668, 0.5908330358458992, 0.22713364837852854], [0.2261306710628853, 0.19415107037487125, 0.47459882503750694], [0.3410257104080399, 0.48634818966500254, 0.2621882673303431], [0.45594096767989273, 0.22980262683708608, 0.18005820531074224], [0.7847110848881139, 0.7455538325832991, 0.24963796231712954], [0.5471451130376571, 0.32788566196495506, 0.49862846436640534], [0.30885952794564114, 0.4366179532914143, 0.5687326397549286], [0.9489179890366709, 0.9515012052648627, 0.9292797041610336], [0.7426838140263555, 0.7459205752837905, 0.7423082444157141], [0.5648985103942955, 0.5671658149417913, 0.5662141982005634], [0.39721663716652866, 0.39962729608800607, 0.39956301528758364], [0.26016608860880497, 0.26208417208919865, 0.2636013306718249], [0.1480100076579532, 0.14764258427701715, 0.14908432789093945]];
pub const BETA_RGB_LINEAR: [[f64; 3]; 24] = [[0.13900598136712644, 0.08705416131680282, 0.06096492041269936], [0.4536234647839871, 0.30762193692299067, 0.227127429898742], [0.14757137164728468, 0.19583323159534505, 0.3236864193993069], [0.1167530535024573, 0.14621851329613217, 0.05912540094640228], [0.23070247227942364, 0.22233224458798212, 0.4136556427083855], [0.26305274553217933, 0.4995537433283432, 0.40753763286178457], [0.5206513170097322, 0.2179022284689353, 0.04838673911191696], [0.0918078815437543, 0.11027641348769864, 0.36940823810005124], [0.3774473756267668, 0.10858318474997009, 0.12456360342167075], [0.08609045113280459, 0.04837274620806385, 0.13297309537437202], [0.3917387604897126, 0.49183702372260607, 0.08202746713854035], [0.6110766073826532, 0.3657077937835858, 0.05399737343337207], [0.042762004191502986, 0.052974750842428295, 0.2721907630311982], [0.14193856061760884, 0.286799759438042, 0.07960237940998802], [0.2845656519242411, 0.049261585099116295, 0.04548289244827536], [0.7307277259669519, 0.5759501666015441, 0.056615594496434836], [0.36077921612403085, 0.11121547491322553, 0.2947318155017524], [0.07829869129643793, 0.23966414696064203, 0.3683534436912005], [0.9141987130471572, 0.9145203834422936, 0.8740871015804554], [0.5850056326127289, 0.5905323408464842, 0.5843966885204992], [0.35724442819323243, 0.3606401104033776, 0.3590469165138231], [0.18929710886933657, 0.1921258654844639, 0.19173004328365853], [0.08819570838304401, 0.08994628934528497, 0.09073455301252853], [0.03204689869103375, 0.03194971019828416, 0.03254233823601615]];
pub const BETA_RGB_ENCODED: [[f64; 3]; 24] = [[0.4078211710217912, 0.32967510460860916, 0.2803907236264742], [0.6981560489639423, 0.5851680314346455, 0.509794641954552], [0.4190575679407456, 0.4765738159585548, 0.5988655190950887], [0.3767307079257944, 0.41730695214224867, 0.2765129652362494], [0.5134265168064999, 0.5048739151084602, 0.6694913629871186], [0.5449831924451405, 0.7294439340486231, 0.6649722290716366], [0.7432890146111399, 0.5002762097123299, 0.2524342872205409], [0.33773945856749066, 0.36708347410147013, 0.635934051446997], [0.6421877317021087, 0.3645106834107209, 0.38798431169922515], [0.3280111666870664, 0.25240110225172957, 0.39967851988900294], [0.6531281907456246, 0.7243004171822585, 0.32088183833301803], [0.7994121671831491, 0.6330305121838966, 0.26534184418717116], [0.2386457254860879, 0.2630457737325256, 0.5535084623754182], [0.4117096907342025, 0.5668196547820353, 0.31653441229475626], [0.5648083731206264, 0.2544987351374445, 0.2454318626712211], [0.8671030641809834, 0.7781871393622277, 0.27111450902771367], [0.6291383241843567, 0.368501055957835, 0.5738923865863581], [0.31416741441712626, 0.5223978673971398, 0.635108034022191], [0.9600441030300905, 0.960197634469043, 0.9406627790657621], [0.7837249232790454, 0.7870817774755791, 0.7833540020498361], [0.6263289465803772, 0.6290280503145561, 0.6277634127962235], [0.4692767979487922, 0.47245146346402056, 0.47200878026295423], [0.33163314773614927, 0.33460917228637127, 0.3359389187333286], [0.20932052800504597, 0.20903174103243072, 0.21078531106747572]];
pub const RED_COLOR_LINEAR: [[f64; 3]; 24] = [[0.16570355646729154, 0.08582865408800636, 0.062282154882967955], [0.5287971229385869, 0.3040715948602597, 0.2307400097317257], [0.12067927527901545, 0.19850629691317687, 0.32375199588015], [0.10366693219731232, 0.1454045565963354, 0.05711054052813063], [0.23105856462055852, 0.2250306128725301, 0.4163007073937468], [0.14577012033861791, 0.5020108781348807, 0.3989185102886754], [0.6765840800907088, 0.21050169633414573, 0.055845418451635716], [0.0772755077530311, 0.11441254205846374, 0.37204881428084846], [0.5125674531111208, 0.10447721143043476, 0.1332594372755361], [0.10338400653623606, 0.049016495403653645, 0.1352177378766642], [0.3495824847138751, 0.48738437880326824, 0.07376498316729299], [0.7409727650064263, 0.3571281041369323, 0.05787338851026608], [0.033193961276687806, 0.056386366997888626, 0.27459559758658003], [0.07314433102062956, 0.2860708711445336, 0.07244623682264689], [0.4031782381569212, 0.045405030214537345, 0.05287226299725452], [0.8191771920116123, 0.5657587091323459, 0.05504526665239455], [0.4827960348400565, 0.10990250155797582, 0.30490225387833014], [-0.005587133668883748, 0.24417642533596667, 0.364854975687662], [0.91485252211549, 0.913926748736421, 0.8735738453785725], [0.5823453120484341, 0.5905307362569131, 0.5841456835194916], [0.3555659727030679, 0.36067136115569237, 0.35891977843841005], [0.18788008648504606, 0.19216569282171006, 0.19163572020719472], [0.08729793356453314, 0.08998623887623577, 0.09068903681940418], [0.03208390027836582, 0.031956917443464725, 0.03255278347714756]];
pub const RED_COLOR_ENCODED: [[f64; 3]; 24] = [[0.44740653169090866, 0.3707459469938652, 0.3352247161531323], [0.5896718759066437, 0.5210883720386348, 0.48733587613020396], [0.4099288729796556, 0.46910280053125164, 0.5288070711069722], [0.3922982121408637, 0.4318573176775379, 0.32589277433274555], [0.4875036526598363, 0.484290753094468, 0.5599021308049776], [0.43215480653551863, 0.5831887273083433, 0.5546118904669374], [0.6204958763907056, 0.47619648164448203, 0.3235019013993775], [0.35895698045152036, 0.403714687425008, 0.5459756206522984], [0.585783304362185, 0.3931956721336814, 0.42155675891269256], [0.3919833499407182, 0.3097589455471886, 0.4232750085481716], [0.5382760729602117, 0.5795041966413859, 0.35378368006385896], [0.6318978890537343, 0.5409143224825076, 0.32731303547847745], [0.27071886253204464, 0.32452970291693733, 0.508575248611829], [0.3528467855428911, 0.5135938759992591, 0.3517846878429001], [0.5559288013940512, 0.3018434179634323, 0.31769987918654696], [0.6445000232008713, 0.5981082240437043, 0.32196624189718165], [0.5783260422080033, 0.39904706509268495, 0.5214237911322912], [0.0015313595953764672, 0.49422737151566437, 0.5435604740329727], [0.6583931547608919, 0.6582657312314987, 0.6525838975660373], [0.6017196993382997, 0.603464904164031, 0.602105611230751], [0.5403726068228594, 0.5421345785592706, 0.5415328152541425], [0.46247079743308755, 0.465187208578846, 0.46485441058094296], [0.37266564053933354, 0.37610486126563214, 0.37698886310851465], [0.2674727259373137, 0.26709606252513274, 0.2688539809526709]];
pub const RED_COLOR2_LINEAR: [[f64; 3]; 24] = [[0.1534834148949363, 0.08958375278112057, 0.07074636465553225], [0.4939438322273497, 0.31416415191261005, 0.25549833532955996], [0.13940663595058478, 0.20166783784201603, 0.30186483228873034], [0.10334555616813243, 0.13673567951985172, 0.06610031813806236], [0.24300677675693372, 0.23818412872632005, 0.39120066440131573], [0.18639711614995624, 0.4713888938612467, 0.38891533014738794], [0.6041270236328651, 0.23126265991841496, 0.10753649375585309], [0.09940384756422754, 0.12911296289067503, 0.3352226745281455], [0.4600727392446758, 0.1336016366980927, 0.15662681925846528], [0.10188182339068214, 0.05838782914387298, 0.12734894580819686], [0.34038063426496423, 0.45062242192350815, 0.11972611502819017], [0.6698406920165443, 0.3627665069767393, 0.12336137013240686], [0.05083436508979067, 0.06938787892667501, 0.24395583753339076], [0.08729302821718121, 0.2576340062358128, 0.08673412288918089], [0.3559715892682207, 0.06975400740136506, 0.07572722560849827], [0.7513378472936785, 0.5486045768780436, 0.14003215277106434], [0.4460760623361204, 0.14776196481496073, 0.3037616346254915], [0.035761277284700466, 0.2355712375060784, 0.3321147836314815], [0.9120387570857513, 0.9112982049739291, 0.8790157816260743], [0.5830110428673987, 0.5895593695681289, 0.5844513251059016], [0.35612993317502495, 0.3602142324981577, 0.3588129703881924], [0.18841618413181233, 0.19184465810723322, 0.19142068573732687], [0.0877032402347259, 0.08985387588277721, 0.09041612036998424], [0.03210669508158213, 0.03200510822204044, 0.03248180230487234]];
pub const RED_COLOR2_ENCODED: [[f64; 3]; 24] = [[0.43827497963231815, 0.3755958243443315, 0.3491608023280426], [0.581169770150878, 0.5251050934900386, 0.4997581793381609], [0.4268743990002052, 0.47101111036472515, 0.5201929693620057], [0.39194049916408513, 0.4245911112158802, 0.3417005906252416], [0.4936420614502849, 0.49119991499964855, 0.5521906406163467], [0.4615171664975812, 0.5753489005204103, 0.551464760260806], [0.6063119218493505, 0.487611029547956, 0.39652821921378295], [0.387469374916998, 0.4178402078037362, 0.5330991414371602], [0.5723251019414582, 0.42185868747221034, 0.4406871704223428], [0.39029843635310846, 0.3282619503859464, 0.41622560378235307], [0.5349829741835688, 0.5697436737107561, 0.4090030362162657], [0.6192404991945866, 0.5428506596609065, 0.41249853728683056], [0.31356459096200273, 0.34702430308238935, 0.4941171916188854], [0.37265927933805465, 0.5007750655430551, 0.37193240858793214], [0.5405134880836197, 0.34760365283716316, 0.3567012064848169], [0.6336415936195369, 0.5942622265707758, 0.427403262540711], [0.5684829089942298, 0.43376363578841937, 0.52096298381138], [0.2779238616562543, 0.4898569468015014, 0.5319504507553127], [0.658005472114164, 0.6579032418186304, 0.653365090138332], [0.6018625358676244, 0.6032590464321406, 0.6021710099377233], [0.5405684428063428, 0.5419778041515584, 0.5414960287797662], [0.46281378779168153, 0.4649857176622692, 0.4647191305995354], [0.3731901431972465, 0.3759376820153226, 0.3766463083737081], [0.26754022334975736, 0.26723913983318426, 0.2686458415603331]];
pub const RED_COLOR3_LINEAR: [[f64; 3]; 24] = [[0.15505434073073623, 0.08476473864600369, 0.0640437786615996], [0.4984969371220422, 0.3007393645398425, 0.2362074454141498], [0.13595022940606905, 0.20443749794273824, 0.31465389346622086], [0.10441835148459125, 0.14114750096982281, 0.06344864964344364], [0.23949139834349176, 0.23418643469859446, 0.40250438048289466], [0.18330827819113538, 0.4967991735520335, 0.4060777848922049], [0.6136184996197288, 0.2034678573706703, 0.06737007168482076], [0.09402977828963266, 0.12670972548792325, 0.3534300034578299], [0.4652924147487914, 0.10617429524396765, 0.1315026513014609], [0.10102673307158214, 0.053183329305054663, 0.12904053567849977], [0.346221129094203, 0.46748717446713195, 0.1035015513573634], [0.6808930557969257, 0.34311162924542743, 0.07976702786856991], [0.04639934543623128, 0.06680814523483171, 0.25883257086135936], [0.08830818734540175, 0.275683268799238, 0.08769331866974128], [0.3608821169138386, 0.046042863511798676, 0.05261400155536456], [0.7645293504677617, 0.5415229554960894, 0.09209439699203453], [0.4476699353268207, 0.11952446716995646, 0.29112447892614485], [0.029963419383602974, 0.2497542807083558, 0.35595159698553236], [0.9128114332050219, 0.9119968371466077, 0.876486226561133], [0.5830156726093336, 0.5902188316970207, 0.5845999773492171], [0.35609082651619983, 0.36058355498499417, 0.35904216031236996], [0.18836565559419866, 0.19213697604967014, 0.19167059986372226], [0.08765205685204278, 0.09001775520626654, 0.0906362186420942], [0.03209727121810804, 0.0319855255411436, 0.03250988845766806]];
pub const RED_COLOR3_ENCODED: [[f64; 3]; 24] = [[0.4394861900894305, 0.3693375962781173, 0.33825351827177036], [0.582313217215885, 0.5197338708160422, 0.49018525018412085], [0.42391179968034176, 0.4726597019095515, 0.5252968190492564], [0.3931306918260054, 0.4283408550511056, 0.3372383343551102], [0.49186654479136616, 0.48913940543917506, 0.5557213802949377], [0.4595076495660932, 0.5818880476079119, 0.5568174809332865], [0.6082623445617168, 0.47208496496605673, 0.3437832250869203], [0.38110903536567386, 0.41563543603535436, 0.5396281466777229], [0.5737287809225188, 0.3950551037947642, 0.41999534458726945], [0.38932927955472413, 0.3183194457296362, 0.41777431661231235], [0.5370829806467772, 0.5743144082322104, 0.39211425770919706], [0.6212916215686716, 0.5359692415181201, 0.3625051614141398], [0.30407226704794615, 0.34286575824013193, 0.5013422175714604], [0.3739690020272263, 0.5090595084719367, 0.37317732957252453], [0.5422067932847496, 0.30327765792367173, 0.31718318686649316], [0.6358268062285632, 0.5926400063105549, 0.37873837799150933], [0.5689263328917759, 0.40880630331032375, 0.5157428228270692], [0.26103198373784614, 0.49698220162544665, 0.5405065478900577], [0.658112049598077, 0.6579996874226094, 0.6530025671962223], [0.6018635286457606, 0.6033988397790797, 0.6022028052044109], [0.5405548726822272, 0.5421044799934489, 0.5415749525550303], [0.4627814994958533, 0.4651691980565451, 0.46487634012638085], [0.37312402641928066, 0.3761446352049538, 0.3769226395286643], [0.26751232280042564, 0.2671810186919247, 0.2687282397743367]];
pub const RED_COLOR4_LINEAR: [[f64; 3]; 24] = [[0.16233515782706573, 0.08642239886849411, 0.06404372489964691], [0.5194800145071196, 0.3059018605538214, 0.23620729087353007], [0.12165401459181308, 0.19562035955872864, 0.31465399326004484], [0.10769589189125359, 0.14736326324935245, 0.06344863111595075], [0.22645045420103116, 0.22072129424736614, 0.4025044658894693], [0.16548673788753177, 0.5040566389810418, 0.40607792822546884], [0.6573182026032716, 0.21435555699611447, 0.06736974997727013], [0.0732778965886523, 0.10857248979701488, 0.35343014277683965], [0.49199552798604457, 0.1041481710177348, 0.1315024457153919], [0.09878566101223671, 0.0471148985045417, 0.12904054646069277], [0.3656385162528538, 0.4966053553335367, 0.10350143359902919], [0.7289829110455046, 0.36417883190284517, 0.07976668326709274], [0.02940480118960051, 0.051446520602281276, 0.25883268442793395], [0.08835731292295035, 0.2907220845398341, 0.08769333389648373], [0.385543497784533, 0.045517271656269453, 0.05261381308442548], [0.8183238403027073, 0.5774765180079326, 0.0920940243627952], [0.46019359420850425, 0.10579685711844913, 0.2911243692519686], [0.003884475847743818, 0.24125861949406702, 0.3559517869001002], [0.9157174293717885, 0.914837624250462, 0.8764862073637375], [0.5828889266867174, 0.5906683282323759, 0.5845999787813543], [0.35585471996538387, 0.3607068626171343, 0.359042162239477], [0.18810126065118482, 0.19217428427990152, 0.1916706019171789], [0.08741332480196634, 0.08996827855155592, 0.09063622040996375], [0.032064262111314835, 0.031943577454027566, 0.032509888665689]];
pub const RED_COLOR4_ENCODED: [[f64; 3]; 24] = [[0.44495413798701766, 0.37152519408956564, 0.3382534269279749], [0.5874540661396775, 0.5218262634219791, 0.490185170538951], [0.4108687605191904, 0.46733552431922626, 0.5252968580874583], [0.39669948804092936, 0.43344322399632257, 0.3372383026242132], [0.4850548584696153, 0.4819431645098906, 0.5557214066054748], [0.44725008899542124, 0.5836956771905185, 0.5568175247104549], [0.6168759175968836, 0.47839414899215804, 0.3437827017158544], [0.3530489899109737, 0.397637273790902, 0.5396281953774666], [0.5806773276092159, 0.39283199140564634, 0.4199951607395566], [0.3867536980116591, 0.3056524478610902, 0.41777432642402956], [0.5438257611965929, 0.5818394194717789, 0.39211412663095185], [0.6298506131178411, 0.5433311037121645, 0.36250467743825776], [0.25927960184269594, 0.31482094207953354, 0.501342271190846], [0.3740320417428879, 0.5155730349398459, 0.37317734923873286], [0.5503861682373767, 0.30209697936740787, 0.3171828090344977], [0.6443690282153616, 0.6006701718817385, 0.37873791728090683], [0.5723577779154578, 0.3946438999780187, 0.5157427765815356], [0.13163719379070776, 0.49276221130392317, 0.5405066138194693], [0.6585120855911155, 0.6583911052263954, 0.65300256444103], [0.6018363471051328, 0.6034940365779302, 0.6022028055106928], [0.540472912292206, 0.5421467458793668, 0.5415749532184427], [0.46261241458637076, 0.4651925964558611, 0.46487634141731937], [0.37281518707441, 0.37608218958988726, 0.3769226417458005], [0.2674145469032457, 0.26705642798276374, 0.2687282403844241]];
pub const DRAGON_COLOR_LINEAR: [[f64; 3]; 24] = [[0.1497234148180459, 0.08582385934373994, 0.06698655177012625], [0.4832198675646335, 0.30344048846548655, 0.2447749052431382], [0.14516882307407752, 0.2074299038944471, 0.30762672266356306], [0.10324668325491182, 0.1366367677630595, 0.06600145986095328], [0.24668308633618263, 0.24186041396155944, 0.3948767723150028], [0.19889760817761382, 0.4838889451975875, 0.40141521993346563], [0.5818328044178513, 0.20896906585729777, 0.08524338612434484], [0.10621246209666807, 0.13592148644970156, 0.3420309262737063], [0.44392069027238157, 0.1174501075444001, 0.140475560019876], [0.10141960748586268, 0.057925668670982484, 0.12688674304362182], [0.3375493775153239, 0.4477910574154681, 0.11689504309416751], [0.647954173560461, 0.34088053221078646, 0.10147595926577507], [0.05626209602586449, 0.07481554343235054, 0.24938327783996644], [0.09164645304193869, 0.2619871931630127, 0.09108735766737013], [0.34144662230307127, 0.055229499142840005, 0.061202970863280796], [0.7304644912979631, 0.5277316323754042, 0.11915987805556652], [0.43477770695701434, 0.13646405611492207, 0.2924638122910402], [0.04848371305089061, 0.24829333192288355, 0.34483658146844903], [0.9111729975757699, 0.9104324534250458, 0.8781500690880225], [0.5832158817015922, 0.5897641989503593, 0.5846561545917391], [0.35630345781936623, 0.3603877508728235, 0.35898648670807276], [0.18858113554012898, 0.19200960409482393, 0.1915856291067072], [0.08782794854686428, 0.08997858062085864, 0.09054082248218406], [0.03211370871761111, 0.03201212192133907, 0.03248881553057634]];
pub const DRAGON_COLOR_ENCODED: [[f64; 3]; 24] = [[0.43532829990030775, 0.37073963479181504, 0.3431577623216882], [0.5784353282497642, 0.5208329401990962, 0.4945258229283549], [0.4316651130142971, 0.4744172178638341, 0.5225177689144217], [0.3918302446043741, 0.4245057646414381, 0.34153700645896196], [0.49547275618867964, 0.49306578191161576, 0.5533496552229032], [0.4693405528327759, 0.5786076604938254, 0.55538540831226], [0.6016096285241496, 0.47531184842871216, 0.3699731304340097], [0.395096611242831, 0.42388687193150165, 0.5355798707888872], [0.5678808069942107, 0.4067646628495518, 0.4277768299115035], [0.38977547822620673, 0.3274097925782392, 0.41579914358643955], [0.5339523705544437, 0.5689599666633025, 0.4062127570815059], [0.6150785990422913, 0.5351640785624222, 0.38983935054912666], [0.3242943210337532, 0.3553539952967916, 0.4968008065209124], [0.3781833432634189, 0.5028230011363697, 0.3774871729675318], [0.5353688527538248, 0.3223214672044311, 0.3333330307373786], [0.6301053832398374, 0.5894201975252702, 0.4084498273779871], [0.565294591125632, 0.4243566021499709, 0.5163063215070678], [0.3086216907852761, 0.4962663979595149, 0.5365882754243896], [0.6578859493187988, 0.657783624099978, 0.6532411367411641], [0.6019064530559282, 0.6033024827703687, 0.6022148189029259], [0.540628638925748, 0.5420373358144568, 0.5415557853057847], [0.46291913662726586, 0.4650892824760917, 0.4648229106864098], [0.3733510931764287, 0.376095194590809, 0.3768029442232894], [0.2675609841469384, 0.2672599499517269, 0.26866642172128496]];
pub const DRAGON_COLOR2_LINEAR: [[f64; 3]; 24] = [[0.16099677018400582, 0.0883904878434362, 0.06698659533354642], [0.5157093090647114, 0.3114338224026991, 0.24477503237793596], [0.12303309186722505, 0.19377774491416858, 0.3076266142151726], [0.10832149548079584, 0.14626109804369375, 0.06600150199934021], [0.22649098325258754, 0.22101137576936827, 0.3948766510561033], [0.17130334817526827, 0.4951263947360869, 0.40141515990544385], [0.6494958507173896, 0.22582700461758354, 0.08524365145834933], [0.0740810277767679, 0.10783833502305568, 0.3420307468654069], [0.48526685050736856, 0.11431268668286187, 0.1404756864072313], [0.09794962579485786, 0.04852945512523355, 0.12688670674163643], [0.367614500672204, 0.4928768853889389, 0.11689526099720564], [0.7224147511348905, 0.37350016570915673, 0.10147628867768176], [0.029948383171486792, 0.05103006024188573, 0.24938312882170052], [0.09172248029439523, 0.2852729806448618, 0.09108741985671538], [0.37963143272223565, 0.05441548747769728, 0.06120309312927999], [0.8137578864439967, 0.5834009488493739, 0.11916029756416972], [0.45416893085252485, 0.11520841206973659, 0.292463818939154], [0.008104021009524454, 0.23513903522335872, 0.34483641489353445], [0.9156725321686052, 0.914831045661343, 0.8781500954509971], [0.5830196316943608, 0.5904601909964624, 0.584656155803608], [0.3559378784904774, 0.36057867971105195, 0.35898648602465627], [0.18817175567805988, 0.1920673734822299, 0.19158562792634748], [0.08745830441357136, 0.08990197390265861, 0.090540821073861], [0.03206259868853106, 0.03194717064291258, 0.03248881519125181]];
pub const DRAGON_COLOR2_ENCODED: [[f64; 3]; 24] = [[0.44396645041943406, 0.3740745953552196, 0.34315783354173235], [0.5865454071130652, 0.5240308931662739, 0.4945258862540014], [0.41218679056329705, 0.4661941889801213, 0.5225177255547532], [0.3973694644759039, 0.4325532646664992, 0.34153707623156987], [0.4850766025307083, 0.48210255794883916, 0.55334961716545], [0.45138181849200265, 0.5814677421188201, 0.5553853897710452], [0.6153762560908101, 0.48471990567814677, 0.36997348185872203], [0.35425812434937715, 0.39685234456283824, 0.5355798060502369], [0.5789618303640278, 0.4036131734589173, 0.4277769362358729], [0.38577937494552117, 0.3087197293814119, 0.41579911003557496], [0.5444923362014986, 0.5809003304803705, 0.4062129742144765], [0.6287149845859816, 0.5464573714413742, 0.38983972382922116], [0.26098512963533643, 0.31396757320192714, 0.49680073360920984], [0.37827771708428115, 0.5132512497878559, 0.3774872506160108], [0.5484726651399355, 0.3207444047128236, 0.33333324665498587], [0.6436658265350083, 0.6019461182018616, 0.40845023812519543], [0.570718574058486, 0.40452089728261076, 0.5163063242979548], [0.16358376719830164, 0.48963343304202284, 0.5365882157906503], [0.6585059146421038, 0.6583902001838468, 0.6532411405176728], [0.601864377605528, 0.6034499649981538, 0.6022148191620762], [0.540501785383099, 0.542102808618236, 0.5415557850704811], [0.46265751926589116, 0.46512553429973885, 0.46482290994404624], [0.3728734329208088, 0.37599845694107403, 0.3768029424554101], [0.2674096177104457, 0.267067104946908, 0.2686664207256249]];
pub const SHARP_RGB_LINEAR: [[f64; 3]; 24] = [[0.1291415827556071, 0.08644528336850757, 0.06282648349936297], [0.42574809786786316, 0.3059755345713092, 0.23270337246913927], [0.15894741361539402, 0.1954639174896238, 0.3169844378927681], [0.12017242566769373, 0.1474832139200416, 0.06295934618020055], [0.23328776887917263, 0.2204698890058723, 0.40457212549726224], [0.3034582657796774, 0.5042274571210623, 0.40917878905401667], [0.4627933429865203, 0.21451172215025283, 0.060073892695464426], [0.1006491970004891, 0.1082383804173067, 0.3567556690957833], [0.32962045534047113, 0.1040696047043213, 0.12695114573499952], [0.08113943394017241, 0.04699642846983877, 0.1293555988444382], [0.4009221173509762, 0.4971614980562206, 0.10052006186688903], [0.560462604636649, 0.364532828358527, 0.07183532967373599], [0.04927203827426306, 0.05116271475058372, 0.261550638133582], [0.16346725733527626, 0.2910235004154347, 0.08784631650871888], [0.24232929644687828, 0.04547168831098147, 0.04842494148894581], [0.6919106273493185, 0.5781208368882373, 0.08335469154196759], [0.31998703122917904, 0.10550385980345373, 0.28885276889551026], [0.10995555275199452, 0.24112536677251337, 0.36028434773088625], [0.9133930694153828, 0.914890444229582, 0.8760237442588481], [0.5858647653605895, 0.5906775194864567, 0.5846262998778885], [0.35781876289843534, 0.3607096701212573, 0.35908353493740824], [0.1897954410795847, 0.19217540794055915, 0.19171585060486274], [0.08852616191658673, 0.08996762595092933, 0.0906761850721691], [0.03204213990369114, 0.031942783423427726, 0.032515037937287036]];
pub const SHARP_RGB_ENCODED: [[f64; 3]; 24] = [[0.1291415827556071, 0.08644528336850757, 0.06282648349936297], [0.42574809786786316, 0.3059755345713092, 0.23270337246913927], [0.15894741361539402, 0.1954639174896238, 0.3169844378927681], [0.12017242566769373, 0.1474832139200416, 0.06295934618020055], [0.23328776887917263, 0.2204698890058723, 0.40457212549726224], [0.3034582657796774, 0.5042274571210623, 0.40917878905401667], [0.4627933429865203, 0.21451172215025283, 0.060073892695464426], [0.1006491970004891, 0.1082383804173067, 0.3567556690957833], [0.32962045534047113, 0.1040696047043213, 0.12695114573499952], [0.08113943394017241, 0.04699642846983877, 0.1293555988444382], [0.4009221173509762, 0.4971614980562206, 0.10052006186688903], [0.560462604636649, 0.364532828358527, 0.07183532967373599], [0.04927203827426306, 0.05116271475058372, 0.261550638133582], [0.16346725733527626, 0.2910235004154347, 0.08784631650871888], [0.24232929644687828, 0.04547168831098147, 0.04842494148894581], [0.6919106273493185, 0.5781208368882373, 0.08335469154196759], [0.31998703122917904, 0.10550385980345373, 0.28885276889551026], [0.10995555275199452, 0.24112536677251337, 0.36028434773088625], [0.9133930694153828, 0.914890444229582, 0.8760237442588481], [0.5858647653605895, 0.5906775194864567, 0.5846262998778885], [0.35781876289843534, 0.3607096701212573, 0.35908353493740824], [0.1897954410795847, 0.19217540794055915, 0.19171585060486274], [0.08852616191658673, 0.08996762595092933, 0.0906761850721691], [0.03204213990369114, 0.031942783423427726, 0.032515037937287036]];
pub const ITUR_BT2020_LINEAR: [[f64; 3]; 24] = [[0.13829288634736348, 0.08957758627871094, 0.06176696757783025], [0.45159953027010435, 0.31479208317182195, 0.22958776863434088], [0.14852126905371665, 0.1923554183516322, 0.31996182011095403], [0.1168748383697192, 0.14590203088638587, 0.06160036751171457], [0.23113000629978914, 0.22059965172401563, 0.40816246854894], [0.2657142314530953, 0.4903723806701552, 0.40994753958688557], [0.5164472638400335, 0.2327987255077604, 0.053563320949666524], [0.09275452864937964, 0.10664579621143283, 0.3619384393158737], [0.3741758202455694, 0.11999056520993423, 0.12437241071692935], [0.08585997641659464, 0.04907199335840704, 0.13057804425034578], [0.39183638575327656, 0.49200846972566004, 0.09371169293722911], [0.6071857492104281, 0.37968812532551194, 0.06320552239277545], [0.043496099894424836, 0.050136476596127105, 0.2658769875646808], [0.1431503253685066, 0.2828262213811735, 0.08541579400745468], [0.2816531766393134, 0.059439426265292916, 0.04582638242968516], [0.7273781402662142, 0.5882994864256125, 0.07170359127450056], [0.358210465258202, 0.11995850280885878, 0.28970384510865055], [0.08064580884558378, 0.23130487503594532, 0.364491924718033], [0.9140905114014801, 0.9149488855746345, 0.8752494445030583], [0.5850567718702322, 0.5903613865468618, 0.5845676043020955], [0.35728188717107356, 0.3605112604591214, 0.3590893401110419], [0.1893308976963276, 0.19200833792397132, 0.19173860210314397], [0.08821948498227122, 0.08986225330789956, 0.09071013931669993], [0.03204734412132469, 0.03194741328400668, 0.032525394138556006]];
pub const ITUR_BT2020_ENCODED: [[f64; 3]; 24] = [[0.35218808356341313, 0.2720969650793099, 0.2149337577961571], [0.6694874138721872, 0.5542935992443888, 0.46779319661725105], [0.36691059389951086, 0.4244132149074149, 0.5590999590889485], [0.319284867232705, 0.36319505441129013, 0.2145524357762471], [0.46950336734425613, 0.4576982582527903, 0.6352983848868382], [0.5063190745222643, 0.6985067967762684, 0.6367417827676956], [0.7173180205069972, 0.4713467375710714, 0.19543407213039826], [0.27796280265346635, 0.30239538587657944, 0.5966380221756459], [0.607125290052839, 0.32426649024562565, 0.33115355451700046], [0.26508562865072927, 0.1840563208011396, 0.34068258487574365], [0.621932883645994, 0.6997030686060836, 0.27970836241654284], [0.7789957201848003, 0.6117876104326099, 0.21820312244860107], [0.16910217377268044, 0.1868030814808736, 0.5064858937959404], [0.359251869274101, 0.5235604745553214, 0.2642368279825677], [0.5223971923235158, 0.20955406076311095, 0.17547304550532894], [0.8533351250558058, 0.7665995133336426, 0.23673073477994588], [0.5934045511662684, 0.3242155914788076, 0.530328078837398], [0.25496433344319475, 0.46969688075247207, 0.5988422381818239], [0.9564625610525634, 0.9569084540750414, 0.9360397338798667], [0.7644492113560695, 0.767963407400205, 0.7641242671151938], [0.5925962699418064, 0.595402327545108, 0.5941685073358365], [0.4206935954686568, 0.4239880097318317, 0.42365726674066806], [0.2695545062063882, 0.2726271881840015, 0.27420101626277615], [0.1346706206758633, 0.13434245212274779, 0.1362327837295662]];
pub const ADOBE_RGB_1998_LINEAR: [[f64; 3]; 24] = [[0.14721157316032396, 0.083743268491268, 0.05865708347445547], [0.47703291513563373, 0.2984675213676582, 0.22034000339644122], [0.13490828902661856, 0.1967523596215509, 0.33017804348340535], [0.11705560661461092, 0.1502223132266242, 0.05615575953542839], [0.2225132483708805, 0.2177257087221284, 0.421490231871535], [0.23595218103116505, 0.5190295694339502, 0.4091889458040217], [0.569319589851714, 0.1989690835392275, 0.03420608131884703], [0.07673665233587434, 0.1062471151647841, 0.380716259966454], [0.41256798165175224, 0.08829722746580998, 0.11896107582548308], [0.08701105763574002, 0.04381065939720866, 0.1356441855488794], [0.39830926620581386, 0.5078133864745102, 0.06715610940450635], [0.6590007503930754, 0.35399871534403354, 0.03518522847592238], [0.030734733751841548, 0.049164074442412845, 0.2816309840752094], [0.1326763378834885, 0.3018727892126529, 0.07428213038733902], [0.316166565086371, 0.03187751192408245, 0.03983428718462746], [0.7766563296373088, 0.5752944319097532, 0.031199715162256402], [0.38517313505709505, 0.08886991999314386, 0.2966124358267108], [0.05049371004335135, 0.24896047277316233, 0.37751855524942335], [0.9161230337735775, 0.9153973960270708, 0.872390774806223], [0.5845664495155463, 0.5910770961462416, 0.5842638595912318], [0.35686870555757655, 0.3609294217639687, 0.3590566917494574], [0.18893876073874127, 0.19234623380699864, 0.191778054973977], [0.0879236706184866, 0.09006080053632348, 0.09080784399919542], [0.03203106071263258, 0.031930507013105146, 0.03256472106607747]];
pub const ADOBE_RGB_1998_ENCODED: [[f64; 3]; 24] = [[0.4184633645472753, 0.3237858474240738, 0.27538912333952065], [0.7142227939442912, 0.5770747396856493, 0.5026897113772643], [0.4021819177715045, 0.477463865684008, 0.604187127462217], [0.3770435267223282, 0.42233342006808955, 0.2699858029466201], [0.5049381619997506, 0.4999688650748269, 0.6751313631337833], [0.5185835381623232, 0.7421571489480412, 0.6660994971111794], [0.7740316809457976, 0.47990243628478246, 0.21549967862290068], [0.31117383456670356, 0.3607942950762053, 0.6446092940093743], [0.6685950387459438, 0.33167659762114804, 0.3798220692878912], [0.32947097080526483, 0.24116646657944807, 0.40317798273017696], [0.6579872087603404, 0.7348211301208611, 0.2928651293974843], [0.8272678910305465, 0.6236313548612008, 0.2182830397952956], [0.20526487394070633, 0.2541459669198175, 0.5620382599919664], [0.3991426320269615, 0.5800592472696916, 0.30660786615270474], [0.5923908122853748, 0.20870074420864668, 0.23095490192491994], [0.8914280878544517, 0.7777148601774079, 0.20667115177239415], [0.6480296957366907, 0.3326530582427665, 0.5754410551814101], [0.2572485936115707, 0.5313935880513149, 0.6421417620739942], [0.960948538256798, 0.9606023665406399, 0.9398118361370059], [0.7833895116808656, 0.7873448742928965, 0.783205098820462], [0.6259252903250611, 0.6291538340270976, 0.627667361474673], [0.46874664685334033, 0.472571899069091, 0.4719366398278378], [0.33103780809175815, 0.3346726230061468, 0.33593207816294857], [0.2091572520346597, 0.20885843635018408, 0.2107346369185377]];
pub const ACES_FROM_SRGB: [[f64; 3]; 24] = [[0.11814070556792754, 0.08919680914961302, 0.062428568288180775], [0.39385540331527147, 0.3130600285488209, 0.23162155787852157], [0.1833063099016412, 0.20232386622991025, 0.3168513289748758], [0.11252212869872785, 0.13668544450418368, 0.06368876156990715], [0.25818712196157384, 0.23866669977532626, 0.4035530241202757], [0.3248186414041473, 0.4726154849360902, 0.4120421208384063], [0.3962930986524819, 0.22894633453081809, 0.057835009047901946], [0.1386391477779108, 0.1299409869044118, 0.3556742756740054], [0.2932706608474155, 0.13199634681020223, 0.12414427233921439], [0.08727295519388467, 0.05838959542738073, 0.12855848908531453], [0.3593936799105474, 0.45013968357740025, 0.10355683169790608], [0.48279808050909084, 0.3604209489124651, 0.07087970437773737], [0.08063345463815962, 0.07005317710940283, 0.26058005822551833], [0.155979658642119, 0.25797158622887284, 0.09033969987336024], [0.20809270386623446, 0.06829832658602901, 0.04605465555881011], [0.5989202678001013, 0.546257959227758, 0.08434183388603464], [0.30925153559689134, 0.1467340767413396, 0.28542012254049304], [0.15063930578806664, 0.23692745045774247, 0.3612967216890288], [0.9079524985852179, 0.9112323986537987, 0.8762436346658647], [0.5858378376268438, 0.5896042661699886, 0.5847243317734291], [0.3580989962155963, 0.36024767217541886, 0.35913304579334815], [0.19015264767457973, 0.19186998604725686, 0.1917503618577693], [0.08888725644123473, 0.08987102057718363, 0.09069189533396939], [0.03210999420263373, 0.03200763029246638, 0.032511782310263]];
pub const SPECTRAL: [[f64; 36]; 24] = [[0.055, 0.058, 0.061, 0.062, 0.062, 0.062, 0.062, 0.062, 0.062, 0.062, 0.062, 0.063, 0.065, 0.07, 0.076, 0.079, 0.081, 0.084, 0.091, 0.103, 0.119, 0.134, 0.143, 0.147, 0.151, 0.158, 0.168, 0.179, 0.188, 0.19, 0.186, 0.181, 0.182, 0.187, 0.196, 0.209], [0.117, 0.143, 0.175, 0.191, 0.196, 0.199, 0.204, 0.213, 0.228, 0.251, 0.28, 0.309, 0.329, 0.333, 0.315, 0.286, 0.273, 0.276, 0.277, 0.289, 0.339, 0.42, 0.488, 0.525, 0.546, 0.562, 0.578, 0.595, 0.612, 0.625, 0.638, 0.656, 0.678, 0.7, 0.717, 0.734], [0.13, 0.177, 0.251, 0.306, 0.324, 0.33, 0.333, 0.331, 0.323, 0.311, 0.298, 0.285, 0.269, 0.25, 0.231, 0.214, 0.199, 0.185, 0.169, 0.157, 0.149, 0.145, 0.142, 0.141, 0.141, 0.141, 0.143, 0.147, 0.152, 0.154, 0.15, 0.144, 0.136, 0.132, 0.135, 0.147], [0.051, 0.054, 0.056, 0.057, 0.058, 0.059, 0.06, 0.061, 0.062, 0.063, 0.065, 0.067, 0.075, 0.101, 0.145, 0.178, 0.184, 0.17, 0.149, 0.133, 0.122, 0.115, 0.109, 0.105, 0.104, 0.106, 0.109, 0.112, 0.114, 0.114, 0.112, 0.112, 0.115, 0.12, 0.125, 0.13], [0.144, 0.198, 0.294, 0.375, 0.408, 0.421, 0.426, 0.426, 0.419, 0.403, 0.379, 0.346, 0.311, 0.281, 0.254, 0.229, 0.214, 0.208, 0.202, 0.194, 0.193, 0.2, 0.214, 0.23, 0.241, 0.254, 0.279, 0.313, 0.348, 0.366, 0.366, 0.359, 0.358, 0.365, 0.377, 0.398], [0.136, 0.179, 0.247, 0.297, 0.32, 0.337, 0.355, 0.381, 0.419, 0.466, 0.51, 0.546, 0.567, 0.574, 0.569, 0.551, 0.524, 0.488, 0.445, 0.4, 0.35, 0.299, 0.252, 0.221, 0.204, 0.196, 0.191, 0.188, 0.191, 0.199, 0.212, 0.223, 0.232, 0.233, 0.229, 0.229], [0.054, 0.054, 0.053, 0.054, 0.054, 0.055, 0.055, 0.055, 0.056, 0.057, 0.058, 0.061, 0.068, 0.089, 0.125, 0.154, 0.174, 0.199, 0.248, 0.335, 0.444, 0.538, 0.587, 0.595, 0.591, 0.587, 0.584, 0.584, 0.59, 0.603, 0.62, 0.639, 0.655, 0.663, 0.663, 0.667], [0.122, 0.164, 0.229, 0.286, 0.327, 0.361, 0.388, 0.4, 0.392, 0.362, 0.316, 0.26, 0.209, 0.168, 0.138, 0.117, 0.104, 0.096, 0.09, 0.086, 0.084, 0.084, 0.084, 0.084, 0.084, 0.085, 0.09, 0.098, 0.109, 0.123, 0.143, 0.169, 0.205, 0.244, 0.287, 0.332], [0.096, 0.115, 0.131, 0.135, 0.133, 0.132, 0.13, 0.128, 0.125, 0.12, 0.115, 0.11, 0.105, 0.1, 0.095, 0.093, 0.092, 0.093, 0.096, 0.108, 0.156, 0.265, 0.399, 0.5, 0.556, 0.579, 0.588, 0.591, 0.593, 0.594, 0.598, 0.602, 0.607, 0.609, 0.609, 0.61], [0.092, 0.116, 0.146, 0.169, 0.178, 0.173, 0.158, 0.139, 0.119, 0.101, 0.087, 0.075, 0.066, 0.06, 0.056, 0.053, 0.051, 0.051, 0.052, 0.052, 0.051, 0.052, 0.058, 0.073, 0.096, 0.119, 0.141, 0.166, 0.194, 0.227, 0.265, 0.309, 0.355, 0.396, 0.436, 0.478], [0.061, 0.061, 0.062, 0.063, 0.064, 0.066, 0.069, 0.075, 0.085, 0.105, 0.139, 0.192, 0.271, 0.376, 0.476, 0.531, 0.549, 0.546, 0.528, 0.504, 0.471, 0.428, 0.381, 0.347, 0.327, 0.318, 0.312, 0.31, 0.314, 0.327, 0.345, 0.363, 0.376, 0.381, 0.378, 0.379], [0.063, 0.063, 0.063, 0.064, 0.064, 0.064, 0.065, 0.066, 0.067, 0.068, 0.071, 0.076, 0.087, 0.125, 0.206, 0.305, 0.383, 0.431, 0.469, 0.518, 0.568, 0.607, 0.628, 0.637, 0.64, 0.642, 0.645, 0.648, 0.651, 0.653, 0.657, 0.664, 0.673, 0.68, 0.684, 0.688], [0.066, 0.079, 0.102, 0.146, 0.2, 0.244, 0.282, 0.309, 0.308, 0.278, 0.231, 0.178, 0.13, 0.094, 0.07, 0.054, 0.046, 0.042, 0.039, 0.038, 0.038, 0.038, 0.038, 0.039, 0.039, 0.04, 0.041, 0.042, 0.044, 0.045, 0.046, 0.046, 0.048, 0.052, 0.057, 0.065], [0.052, 0.053, 0.054, 0.055, 0.057, 0.059, 0.061, 0.066, 0.075, 0.093, 0.125, 0.178, 0.246, 0.307, 0.337, 0.334, 0.317, 0.293, 0.262, 0.23, 0.198, 0.165, 0.135, 0.115, 0.104, 0.098, 0.094, 0.092, 0.093, 0.097, 0.102, 0.108, 0.113, 0.115, 0.114, 0.114], [0.05, 0.049, 0.048, 0.047, 0.047, 0.047, 0.047, 0.047, 0.046, 0.045, 0.044, 0.044, 0.045, 0.046, 0.047, 0.048, 0.049, 0.05, 0.054, 0.06, 0.072, 0.104, 0.178, 0.312, 0.467, 0.581, 0.644, 0.675, 0.69, 0.698, 0.706, 0.715, 0.724, 0.73, 0.734, 0.738], [0.058, 0.054, 0.052, 0.052, 0.053, 0.054, 0.056, 0.059, 0.067, 0.081, 0.107, 0.152, 0.225, 0.336, 0.462, 0.559, 0.616, 0.65, 0.672, 0.694, 0.71, 0.723, 0.731, 0.739, 0.746, 0.752, 0.758, 0.764, 0.769, 0.771, 0.776, 0.782, 0.79, 0.796, 0.799, 0.804], [0.145, 0.195, 0.283, 0.346, 0.362, 0.354, 0.334, 0.306, 0.276, 0.248, 0.218, 0.19, 0.168, 0.149, 0.127, 0.107, 0.1, 0.102, 0.104, 0.109, 0.137, 0.2, 0.29, 0.4, 0.516, 0.615, 0.687, 0.732, 0.76, 0.774, 0.783, 0.793, 0.803, 0.812, 0.817, 0.825], [0.108, 0.141, 0.192, 0.236, 0.261, 0.286, 0.317, 0.353, 0.39, 0.426, 0.446, 0.444, 0.423, 0.385, 0.337, 0.283, 0.231, 0.185, 0.146, 0.118, 0.101, 0.09, 0.082, 0.076, 0.074, 0.073, 0.073, 0.074, 0.076, 0.077, 0.076, 0.075, 0.073, 0.072, 0.074, 0.079], [0.189, 0.255, 0.423, 0.66, 0.811, 0.862, 0.877, 0.884, 0.891, 0.896, 0.899, 0.904, 0.907, 0.909, 0.911, 0.91, 0.911, 0.914, 0.913, 0.916, 0.915, 0.916, 0.914, 0.915, 0.918, 0.919, 0.921, 0.923, 0.924, 0.922, 0.922, 0.925, 0.927, 0.93, 0.93, 0.933], [0.171, 0.232, 0.365, 0.507, 0.567, 0.583, 0.588, 0.59, 0.591, 0.59, 0.588, 0.588, 0.589, 0.589, 0.591, 0.59, 0.59, 0.59, 0.589, 0.591, 0.59, 0.59, 0.587, 0.585, 0.583, 0.58, 0.578, 0.576, 0.574, 0.572, 0.571, 0.569, 0.568, 0.568, 0.566, 0.566], [0.144, 0.192, 0.272, 0.331, 0.35, 0.357, 0.361, 0.363, 0.363, 0.361, 0.359, 0.358, 0.358, 0.359, 0.36, 0.36, 0.361, 0.361, 0.36, 0.362, 0.362, 0.361, 0.359, 0.358, 0.355, 0.352, 0.35, 0.348, 0.345, 0.343, 0.34, 0.338, 0.335, 0.334, 0.332, 0.331], [0.105, 0.131, 0.163, 0.18, 0.186, 0.19, 0.193, 0.194, 0.194, 0.192, 0.191, 0.191, 0.191, 0.192, 0.192, 0.192, 0.192, 0.192, 0.192, 0.193, 0.192, 0.192, 0.191, 0.189, 0.188, 0.186, 0.184, 0.182, 0.181, 0.179, 0.178, 0.176, 0.174, 0.173, 0.172, 0.171], [0.068, 0.077, 0.084, 0.087, 0.089, 0.09, 0.092, 0.092, 0.091, 0.09, 0.09, 0.09, 0.09, 0.09, 0.09, 0.09, 0.09, 0.09, 0.09, 0.09, 0.09, 0.089, 0.089, 0.088, 0.087, 0.086, 0.086, 0.085, 0.084, 0.084, 0.083, 0.083, 0.082, 0.081, 0.081, 0.081], [0.031, 0.032, 0.032, 0.033, 0.033, 0.033, 0.033, 0.033, 0.032, 0.032, 0.032, 0.032, 0.032, 0.032, 0.032, 0.032, 0.032, 0.032, 0.032, 0.032, 0.032, 0.032, 0.032, 0.032, 0.032, 0.032, 0.032, 0.032, 0.032, 0.032, 0.032, 0.032, 0.032, 0.032, 0.032, 0.033]];
pub const DARK_SKIN: [f64; 36] = [0.055, 0.058, 0.061, 0.062, 0.062, 0.062, 0.062, 0.062, 0.062, 0.062, 0.062, 0.063, 0.065, 0.07, 0.076, 0.079, 0.081, 0.084, 0.091, 0.103, 0.119, 0.134, 0.143, 0.147, 0.151, 0.158, 0.168, 0.179, 0.188, 0.19, 0.186, 0.181, 0.182, 0.187, 0.196, 0.209];
pub const ILL_D50: [f64; 97] = [0.019, 1.035, 2.051, 4.914, 7.778, 11.263, 14.748, 16.348, 17.948, 19.479, 21.01, 22.476, 23.942, 25.451, 26.961, 25.724, 24.488, 27.179, 29.871, 39.589, 49.308, 52.91, 56.513, 58.273, 60.034, 58.926, 57.818, 66.321, 74.825, 81.036, 87.247, 88.93, 90.612, 90.99, 91.368, 93.238, 95.109, 93.536, 91.963, 93.843, 95.724, 96.169, 96.613, 96.871, 97.129, 99.614, 102.099, 101.427, 100.755, 101.536, 102.317, 101.159, 100.0, 98.868, 97.735, 98.327, 98.918, 96.208, 93.499, 95.593, 97.688, 98.478, 99.269, 99.155, 99.042, 97.382, 95.722, 97.29, 98.857, 97.262, 95.667, 96.929, 98.19, 100.597, 103.003, 101.068, 99.133, 93.257, 87.381, 89.492, 91.604, 92.246, 92.889, 84.872, 76.854, 81.683, 86.511, 89.546, 92.58, 85.405, 78.23, 67.961, 57.692, 70.307, 82.923, 80.599, 78.274];
pub const ILL_D55: [f64; 97] = [0.024, 1.048, 2.072, 6.648, 11.224, 15.936, 20.647, 22.266, 23.885, 25.851, 27.817, 29.219, 30.621, 32.464, 34.308, 33.446, 32.584, 35.335, 38.087, 49.518, 60.949, 64.751, 68.554, 70.065, 71.577, 69.746, 67.914, 76.76, 85.605, 91.799, 97.993, 99.228, 100.463, 100.188, 99.913, 101.326, 102.739, 100.409, 98.078, 99.379, 100.68, 100.688, 100.695, 100.341, 99.987, 102.098, 104.21, 103.156, 102.102, 102.535, 102.968, 101.484, 100.0, 98.608, 97.216, 97.482, 97.749, 94.59, 91.432, 92.926, 94.419, 94.78, 95.14, 94.68, 94.22, 92.334, 90.448, 91.389, 92.33, 90.592, 88.854, 89.586, 90.317, 92.133, 93.95, 91.953, 89.956, 84.817, 79.677, 81.258, 82.84, 83.842, 84.844, 77.539, 70.235, 74.768, 79.301, 82.147, 84.993, 78.437, 71.88, 62.337, 52.793, 64.36, 75.927, 73.872, 71.818];
pub const ILL_D60: [f64; 107] = [0.0293, 1.2899, 2.5505, 9.04125, 15.532, 21.966749999999998, 28.4015, 29.958349999999996, 31.515199999999993, 33.78424999999999, 36.05329999999999, 37.231, 38.4087, 40.6733, 42.9379, 42.08869999999999, 41.23949999999999, 43.844649999999994, 46.449799999999996, 59.30195, 72.15409999999999, 76.22205, 80.28999999999999, 81.5341, 82.7782, 80.17745, 77.5767, 86.5984, 95.62010000000001, 101.76225, 107.9044, 108.71109999999999, 109.5178, 108.62295, 107.7281, 108.6911, 109.6541, 106.6692, 103.6843, 104.4494, 105.21449999999999, 104.8149, 104.4153, 103.46975, 102.52420000000001, 104.29085, 106.0575, 104.68549999999999, 103.31349999999999, 103.42665, 103.53980000000001, 101.76989999999999, 100.0, 98.3759, 96.75179999999999, 96.7319, 96.712, 93.2952, 89.8784, 90.9071, 91.9358, 91.97585000000001, 92.0159, 91.2841, 90.5523, 88.48885000000001, 86.4254, 86.9331, 87.4408, 85.631, 83.8212, 84.1803, 84.5394, 85.9118, 87.2842, 85.273, 83.2618, 78.62875, 73.9957, 75.2048, 76.4139, 77.64344999999999, 78.873, 72.09849999999999, 65.324, 69.6352, 73.94640000000001, 76.6527, 79.359, 73.26265, 67.16629999999999, 58.16505, 49.1638, 59.9502, 70.7366, 68.8789, 67.02120000000001, 67.52260000000001, 68.024, 65.43955, 62.85509999999999, 58.86505, 54.875, 57.7862, 60.6974, 62.226949999999995, 63.7565];
pub const ILL_D65: [f64; 97] = [0.0341, 1.6643, 3.2945, 11.7652, 20.236, 28.6447, 37.0535, 38.5011, 39.9488, 42.4302, 44.9117, 45.775, 46.6383, 49.3637, 52.0891, 51.0323, 49.9755, 52.3118, 54.6482, 68.7015, 82.7549, 87.1204, 91.486, 92.4589, 93.4318, 90.057, 86.6823, 95.7736, 104.865, 110.936, 117.008, 117.41, 117.812, 116.336, 114.861, 115.392, 115.923, 112.367, 108.811, 109.082, 109.354, 108.578, 107.802, 106.296, 104.79, 106.239, 107.689, 106.047, 104.405, 104.225, 104.046, 102.023, 100.0, 98.1671, 96.3342, 96.0611, 95.788, 92.2368, 88.6856, 89.3459, 90.0062, 89.8026, 89.5991, 88.6489, 87.6987, 85.4936, 83.2886, 83.4939, 83.6992, 81.863, 80.0268, 80.1207, 80.2146, 81.2462, 82.2778, 80.281, 78.2842, 74.0027, 69.7213, 70.6652, 71.6091, 72.979, 74.349, 67.9765, 61.604, 65.7448, 69.8856, 72.4863, 75.087, 69.3398, 63.5927, 55.0054, 46.4182, 56.6118, 66.8054, 65.0941, 63.3828];
pub const MY_RED: [f64; 81] = [0.327457413827055, 0.323750578270541, 0.313439461251577, 0.288879382755265, 0.239205681158886, 0.189702036890535, 0.121746067959218, 0.074578270669466, 0.0444331586340337, 0.0289286321285029, 0.0223166534847512, 0.0169113072926318, 0.0141811071179667, 0.0130531426774873, 0.011986163627845, 0.0112887147124048, 0.0109060664656517, 0.0104007134810042, 0.0106373602541465, 0.0109076625337741, 0.0110327124480988, 0.0113106565912268, 0.0111546420569403, 0.0101487704062122, 0.00891858211883843, 0.00768557633847106, 0.00670570828469526, 0.00599580598764424, 0.00553725664234189, 0.00519378424120663, 0.00502536226522334, 0.00513636276967508, 0.00543320026053983, 0.00581998590243535, 0.00640057277462412, 0.00744952868340878, 0.00858363581937657, 0.0103957624651674, 0.0135654335386492, 0.0193845158399742, 0.0320840712020024, 0.0743560378459411, 0.624393724178075, 0.91831003276872, 0.949253030175051, 0.958187833329246, 0.958187751332698, 0.958187625087782, 0.955679060771746, 0.958006154893429, 0.954101573456564, 0.947607606237237, 0.938681328447549, 0.924466682751434, 0.904606025333056, 0.880412198927933, 0.8477878731517, 0.805779126623019, 0.752531853871421, 0.686439396844578, 0.61869457086061, 0.540264443959111, 0.472964416293838, 0.432701596704049, 0.405358045528392, 0.385491834974902, 0.370983584551061, 0.357608701523081, 0.348712800108393, 0.344880119344691, 0.341917877323291, 0.339531092987129, 0.337169503774367, 0.336172018527717, 0.335167443433363, 0.334421625306463, 0.334008760376402, 0.333915792790082, 0.333818454946367, 0.333672774928456, 0.333569513405591];
pub const MY_GREEN: [f64; 81] = [0.331861713085874, 0.329688187759399, 0.327860021624697, 0.319173580231756, 0.294322583694842, 0.258697064768736, 0.188894319254765, 0.125388381991689, 0.0786870603106217, 0.0531432708659453, 0.0422881460313421, 0.0333183455029171, 0.0297559481859724, 0.0303312505369047, 0.0309885718973007, 0.0316863551888381, 0.0346699615029974, 0.034551957443675, 0.0406848061948297, 0.0544600373694056, 0.0809052874204737, 0.146348302857044, 0.379679643296617, 0.766744268654033, 0.87621474761337, 0.918491655613843, 0.940655562534437, 0.95373188453302, 0.961643279840238, 0.967200019685078, 0.970989746390046, 0.972852303563554, 0.973116594076444, 0.973351069154143, 0.973351115544369, 0.972261079731725, 0.973351021746917, 0.973148495185693, 0.971061306300914, 0.966371305955183, 0.954941967502548, 0.913578989551261, 0.364348803907687, 0.0715072425408851, 0.0412304344713751, 0.0324238741836685, 0.0319246297982003, 0.0312760331730969, 0.0326303704290574, 0.0295308721490739, 0.0315617611702464, 0.0356742182708204, 0.0414030053955673, 0.0506042604489561, 0.0634343003817003, 0.0789182452939229, 0.0995427426653747, 0.125595760093287, 0.15759091044168, 0.19539823904421, 0.231474474772178, 0.268852136095262, 0.296029164217928, 0.309754994441945, 0.317815883383822, 0.322990347389898, 0.326353847938009, 0.32914390227898, 0.330808726803682, 0.331482689922243, 0.331984550352389, 0.332341172522545, 0.332912009415539, 0.332919279695214, 0.333027672578856, 0.33317970467326, 0.333247030974549, 0.333259349210601, 0.333275050279383, 0.333294328448732, 0.333309424957775];
pub const MY_BLUE: [f64; 81] = [0.340680791548052, 0.346561186624852, 0.358700493140351, 0.391947026588195, 0.466471730587333, 0.551600895598602, 0.689359610948928, 0.800033346878607, 0.876879780935314, 0.917928097443955, 0.935395200669632, 0.949770347115183, 0.95606294480524, 0.956615606890316, 0.957025264931328, 0.957024930534713, 0.954423972737066, 0.955047329020204, 0.948677833093334, 0.934632299842328, 0.908061999852269, 0.842341039463727, 0.609165715365647, 0.223106960959533, 0.114866670291336, 0.0738227678957437, 0.0526387287910555, 0.0402723090168887, 0.0328194626509591, 0.0276061959270456, 0.0239848911270394, 0.0220113333527922, 0.0214502052559966, 0.0208289445095685, 0.0202483113888087, 0.0202893914512066, 0.018065342335913, 0.0164557422344685, 0.0153732601340955, 0.0142441784845517, 0.0129739615543347, 0.0120649741345218, 0.0112574781603901, 0.0101827246716942, 0.00951653538723741, 0.00938829272866817, 0.00988761909067028, 0.0105363420064589, 0.0116905688374448, 0.0124629728871037, 0.0143366651774203, 0.0167181753275443, 0.0199156660750025, 0.024929056163281, 0.0319596735860402, 0.0406695540952484, 0.0526693824219396, 0.0686251105141947, 0.0898772323000136, 0.118162358926434, 0.149830947442133, 0.190883409341834, 0.231006403025217, 0.257543385422202, 0.276826038721536, 0.291517772810795, 0.302662506083233, 0.313247301302886, 0.320478325124633, 0.323636994707961, 0.3260973088469, 0.328127369340184, 0.329917975958888, 0.330907901216649, 0.331803633095995, 0.332396627255361, 0.332740780726824, 0.332820857081489, 0.332901731283444, 0.333025967488632, 0.333111083081497];
pub const SMITS_WHITE: [f64; 32] = [1.0618958571272863, 1.0615019980348779, 1.0614335379927147, 1.0622711654692485, 1.0622036218416742, 1.0625059965187085, 1.0623938486985884, 1.0624706448043137, 1.0625048144827762, 1.0624366131308856, 1.0620694238892607, 1.0613167586932164, 1.061033402937702, 1.0613868564828413, 1.0614215366116762, 1.0620336151299086, 1.062549745480505, 1.0624317487992085, 1.062524914055448, 1.0624277664486914, 1.062474985409077, 1.0625538581025402, 1.0625326910104864, 1.0623922312225325, 1.062365098035413, 1.0625256476715284, 1.0612277619533155, 1.0594262608698046, 1.0599810758292072, 1.0602547314449409, 1.0601263046243634, 1.0606565756823634];
pub const SMITS_CYAN: [f64; 32] = [1.041462802142675, 1.0328661533771188, 1.0126146228964314, 1.035046052483621, 1.0078661447098567, 1.042228038508128, 1.0442596738499825, 1.0535238290294409, 1.018077622693812, 1.0442729908727713, 1.052936254192075, 1.0537034271160244, 1.053390186921597, 1.0537782700979574, 1.0527093770467102, 1.0530449040446797, 1.0550554640191208, 1.055367361072482, 1.0454306634683976, 0.623489506392308, 0.18038071613188977, -0.007630375920198454, -0.00015217847035781367, -0.007510225734725831, -0.002170863932849147, 0.0006591946660236964, 0.01227881531853978, -0.004466977563720803, 0.017119799082865147, 0.00492110897597598, 0.0058762925143334985, 0.02525939941555008];
pub const SMITS_MAGENTA: [f64; 32] = [0.9942213815123685, 0.9898693712297568, 0.9829365828611696, 0.9962786839985931, 1.0198955019000133, 1.016639550121036, 1.0220913178757398, 0.9965166604068244, 1.0097766178917882, 1.0215422470827016, 0.6403195338779096, 0.0025012379477078184, 0.006533993955576994, 0.0028334080462675826, -5.1209675389074505e-11, -0.009059229164664638, 0.00339367183233312, -0.0030638741121828406, 0.22203936168286292, 0.6314114002481197, 0.9748098557650096, 0.9720956233359057, 1.017377030286815, 0.9987519432273413, 0.9470172573960224, 0.852586231543548, 0.9489779858166084, 0.9475187609652149, 0.9959894419105979, 0.8630135150380908, 0.8915098785352314, 0.8486649265284508];
pub const SMITS_YELLOW: [f64; 32] = [0.005574062292492087, -0.004798283163144679, -0.00525365642986138, -0.006457148004449971, -0.005969351465800701, -0.002183671603768672, 0.016781120601055327, 0.09609635542906264, 0.21217357081986446, 0.3616913329068507, 0.5396101154323253, 0.7440881049217151, 0.9220957114839405, 1.0460304298411225, 1.0513824989063714, 1.0511991822135085, 1.0510530911991052, 1.051739723036051, 1.0516043086790485, 1.051194403206146, 1.0511590325868068, 1.051661246548303, 1.0514038526836869, 1.0515941029228475, 1.051146043696084, 1.0515123758830476, 1.0508871369510702, 1.050892370810238, 1.0477492815668303, 1.0493272144017338, 1.0435963333422726, 1.0392280772051465];
pub const SMITS_RED: [f64; 32] = [0.1657560486708618, 0.11846442802747797, 0.12408293329637447, 0.11371272058349924, 0.07899243451889913, 0.03220560359310655, -0.010798365407877875, 0.018051975516730392, 0.005340719659873053, 0.013654918729501336, -0.005956421354564284, -0.0018444365067353252, -0.010571884361529504, -0.002937552107800001, -0.010790476271835936, -0.008022430669750363, -0.002266916770249594, 0.007020024049470663, -0.00815284690002993, 0.6077286696925279, 0.988315608654324, 0.9939169104407882, 1.0039338994753197, 0.9923449986116712, 0.9992653085885552, 1.008462155761727, 0.9835829682744122, 1.0085023660099048, 0.974511383265687, 0.9854326957005994, 0.9349576398096204, 0.987139077923194];
pub const SMITS_GREEN: [f64; 32] = [0.0026494153587602255, -0.005017501342973224, -0.012547236272489583, -0.009455496430838867, -0.012526086181600525, -0.007917069776043777, -0.007995573520417569, -0.009355943344446907, 0.0654686119829993, 0.3957287551763414, 0.7524402229988666, 0.9637647869021856, 0.9985443385516233, 0.9999297702528792, 0.9993908675114045, 0.999943722670714, 0.9993912181341867, 0.9991123731042448, 0.9601958487827158, 0.6318627933843244, 0.2579740102876347, 0.009401488852733564, -0.0030798345608649747, -0.0045230367033685034, -0.006893341038827404, -0.00903521955390154, -0.008591366716534021, -0.00836908691202894, -0.007868583233875431, -8.365757871108513e-6, 0.005430122544281718, -0.0027745589759259194];
pub const SMITS_BLUE: [f64; 32] = [0.9920977146972068, 0.9887642605936913, 0.9953904074450564, 0.9952931735300822, 0.9918144741163395, 1.0002584039673432, 0.9996847843734251, 0.9998812076665717, 0.9850401214637043, 0.7902984905303128, 0.5608219861746397, 0.3313345851399653, 0.13692410840839175, 0.01891490655966415, -5.112977093255089e-6, -0.00042395493167891873, -0.00041934593101534273, 0.0017473028136486615, 0.0037999160177631316, -0.0005510147490658864, -4.3716662898480967e-5, 0.00758745017487328, 0.02579565078055402, 0.03816837653250055, 0.04948958640803083, 0.049595992290102905, 0.04981481950581225, 0.03984091106497802, 0.03050102493723387, 0.02124305476524108, 0.00695965321043564, 0.0041733649330980525];
pub const CMF_X_BAR: [f64; 471] = [0.0001299, 0.000145847, 0.0001638021, 0.0001840037, 0.0002066902, 0.0002321, 0.000260728, 0.000293075, 0.000329388, 0.000369914, 0.0004149, 0.0004641587, 0.000518986, 0.000581854, 0.0006552347, 0.0007416, 0.0008450296, 0.0009645268, 0.001094949, 0.001231154, 0.001368, 0.00150205, 0.001642328, 0.001802382, 0.001995757, 0.002236, 0.002535385, 0.002892603, 0.003300829, 0.003753236, 0.004243, 0.004762389, 0.005330048, 0.005978712, 0.006741117, 0.00765, 0.008751373, 0.01002888, 0.0114217, 0.01286901, 0.01431, 0.01570443, 0.01714744, 0.01878122, 0.02074801, 0.02319, 0.02620736, 0.02978248, 0.03388092, 0.03846824, 0.04351, 0.0489956, 0.0550226, 0.0617188, 0.069212, 0.07763, 0.08695811, 0.09717672, 0.1084063, 0.1207672, 0.13438, 0.1493582, 0.1653957, 0.1819831, 0.198611, 0.21477, 0.2301868, 0.2448797, 0.2587773, 0.2718079, 0.2839, 0.2949438, 0.3048965, 0.3137873, 0.3216454, 0.3285, 0.3343513, 0.3392101, 0.3431213, 0.3461296, 0.34828, 0.3495999, 0.3501474, 0.350013, 0.349287, 0.34806, 0.3463733, 0.3442624, 0.3418088, 0.3390941, 0.3362, 0.3331977, 0.3300411, 0.3266357, 0.3228868, 0.3187, 0.3140251, 0.308884, 0.3032904, 0.2972579, 0.2908, 0.2839701, 0.2767214, 0.2689178, 0.2604227, 0.2511, 0.2408475, 0.2298512, 0.2184072, 0.2068115, 0.19536, 0.1842136, 0.1733273, 0.1626881, 0.1522833, 0.1421, 0.1321786, 0.1225696, 0.1132752, 0.1042979, 0.09564, 0.08729955, 0.07930804, 0.07171776, 0.06458099, 0.05795001, 0.05186211, 0.04628152, 0.04115088, 0.03641283, 0.03201, 0.0279172, 0.0241444, 0.020687, 0.0175404, 0.0147, 0.01216179, 0.00991996, 0.00796724, 0.006296346, 0.0049, 0.003777173, 0.00294532, 0.00242488, 0.002236293, 0.0024, 0.00292552, 0.00383656, 0.00517484, 0.00698208, 0.0093, 0.01214949, 0.01553588, 0.01947752, 0.02399277, 0.0291, 0.03481485, 0.04112016, 0.04798504, 0.05537861, 0.06327, 0.07163501, 0.08046224, 0.08973996, 0.09945645, 0.1096, 0.1201674, 0.1311145, 0.1423679, 0.1538542, 0.1655, 0.1772571, 0.18914, 0.2011694, 0.2133658, 0.2257499, 0.2383209, 0.2510668, 0.2639922, 0.2771017, 0.2904, 0.3038912, 0.3175726, 0.3314384, 0.3454828, 0.3597, 0.3740839, 0.3886396, 0.4033784, 0.4183115, 0.4334499, 0.4487953, 0.464336, 0.480064, 0.4959713, 0.5120501, 0.5282959, 0.5446916, 0.5612094, 0.5778215, 0.5945, 0.6112209, 0.6279758, 0.6447602, 0.6615697, 0.6784, 0.6952392, 0.7120586, 0.7288284, 0.7455188, 0.7621, 0.7785432, 0.7948256, 0.8109264, 0.8268248, 0.8425, 0.8579325, 0.8730816, 0.8878944, 0.9023181, 0.9163, 0.9297995, 0.9427984, 0.9552776, 0.9672179, 0.9786, 0.9893856, 0.9995488, 1.0090892, 1.0180064, 1.0263, 1.0339827, 1.040986, 1.047188, 1.0524667, 1.0567, 1.0597944, 1.0617992, 1.0628068, 1.0629096, 1.0622, 1.0607352, 1.0584436, 1.0552244, 1.0509768, 1.0456, 1.0390369, 1.0313608, 1.0226662, 1.0130477, 1.0026, 0.9913675, 0.9793314, 0.9664916, 0.9528479, 0.9384, 0.923194, 0.907244, 0.890502, 0.87292, 0.8544499, 0.835084, 0.814946, 0.794186, 0.772954, 0.7514, 0.7295836, 0.7075888, 0.6856022, 0.6638104, 0.6424, 0.6215149, 0.6011138, 0.5811052, 0.5613977, 0.5419, 0.5225995, 0.5035464, 0.4847436, 0.4661939, 0.4479, 0.4298613, 0.412098, 0.394644, 0.3775333, 0.3608, 0.3444563, 0.3285168, 0.3130192, 0.2980011, 0.2835, 0.2695448, 0.2561184, 0.2431896, 0.2307272, 0.2187, 0.2070971, 0.1959232, 0.1851708, 0.1748323, 0.1649, 0.1553667, 0.14623, 0.13749, 0.1291467, 0.1212, 0.1136397, 0.106465, 0.09969044, 0.09333061, 0.0874, 0.08190096, 0.07680428, 0.07207712, 0.06768664, 0.0636, 0.05980685, 0.05628216, 0.05297104, 0.04981861, 0.04677, 0.04378405, 0.04087536, 0.03807264, 0.03540461, 0.0329, 0.03056419, 0.02838056, 0.02634484, 0.02445275, 0.0227, 0.02108429, 0.01959988, 0.01823732, 0.01698717, 0.01584, 0.01479064, 0.01383132, 0.01294868, 0.0121292, 0.01135916, 0.01062935, 0.009938846, 0.009288422, 0.008678854, 0.008110916, 0.007582388, 0.007088746, 0.006627313, 0.006195408, 0.005790346, 0.005409826, 0.005052583, 0.004717512, 0.004403507, 0.004109457, 0.003833913, 0.003575748, 0.003334342, 0.003109075, 0.002899327, 0.002704348, 0.00252302, 0.002354168, 0.002196616, 0.00204919, 0.00191096, 0.001781438, 0.00166011, 0.001546459, 0.001439971, 0.001340042, 0.001246275, 0.001158471, 0.00107643, 0.0009999493, 0.0009287358, 0.0008624332, 0.0008007503, 0.000743396, 0.0006900786, 0.0006405156, 0.0005945021, 0.0005518646, 0.000512429, 0.0004760213, 0.0004424536, 0.0004115117, 0.0003829814, 0.0003566491, 0.0003323011, 0.0003097586, 0.0002888871, 0.0002695394, 0.0002515682, 0.0002348261, 0.000219171, 0.0002045258, 0.0001908405, 0.0001780654, 0.0001661505, 0.0001550236, 0.0001446219, 0.0001349098, 0.000125852, 0.000117413, 0.0001095515, 0.0001022245, 9.539445e-5, 8.90239e-5, 8.307527e-5, 7.751269e-5, 7.231304e-5, 6.745778e-5, 6.292844e-5, 5.870652e-5, 5.477028e-5, 5.109918e-5, 4.767654e-5, 4.448567e-5, 4.150994e-5, 3.873324e-5, 3.614203e-5, 3.372352e-5, 3.146487e-5, 2.935326e-5, 2.737573e-5, 2.552433e-5, 2.379376e-5, 2.21787e-5, 2.067383e-5, 1.927226e-5, 1.79664e-5, 1.674991e-5, 1.561648e-5, 1.455977e-5, 1.357387e-5, 1.265436e-5, 1.179723e-5, 1.099844e-5, 1.025398e-5, 9.559646e-6, 8.912044e-6, 8.308358e-6, 7.745769e-6, 7.221456e-6, 6.732475e-6, 6.276423e-6, 5.851304e-6, 5.455118e-6, 5.085868e-6, 4.741466e-6, 4.420236e-6, 4.120783e-6, 3.841716e-6, 3.581652e-6, 3.339127e-6, 3.112949e-6, 2.902121e-6, 2.705645e-6, 2.522525e-6, 2.351726e-6, 2.192415e-6, 2.043902e-6, 1.905497e-6, 1.776509e-6, 1.656215e-6, 1.544022e-6, 1.43944e-6, 1.341977e-6, 1.251141e-6];
pub const CMF_Y_BAR: [f64; 471] = [3.917e-6, 4.393581e-6, 4.929604e-6, 5.532136e-6, 6.208245e-6, 6.965e-6, 7.813219e-6, 8.767336e-6, 9.839844e-6, 1.104323e-5, 1.239e-5, 1.388641e-5, 1.555728e-5, 1.744296e-5, 1.958375e-5, 2.202e-5, 2.483965e-5, 2.804126e-5, 3.153104e-5, 3.521521e-5, 3.9e-5, 4.28264e-5, 4.69146e-5, 5.15896e-5, 5.71764e-5, 6.4e-5, 7.234421e-5, 8.221224e-5, 9.350816e-5, 0.0001061361, 0.00012, 0.000134984, 0.000151492, 0.000170208, 0.000191816, 0.000217, 0.0002469067, 0.00028124, 0.00031852, 0.0003572667, 0.000396, 0.0004337147, 0.000473024, 0.000517876, 0.0005722187, 0.00064, 0.00072456, 0.0008255, 0.00094116, 0.00106988, 0.00121, 0.001362091, 0.001530752, 0.001720368, 0.001935323, 0.00218, 0.0024548, 0.002764, 0.0031178, 0.0035264, 0.004, 0.00454624, 0.00515932, 0.00582928, 0.00654616, 0.0073, 0.008086507, 0.00890872, 0.00976768, 0.01066443, 0.0116, 0.01257317, 0.01358272, 0.01462968, 0.01571509, 0.01684, 0.01800736, 0.01921448, 0.02045392, 0.02171824, 0.023, 0.02429461, 0.02561024, 0.02695857, 0.02835125, 0.0298, 0.03131083, 0.03288368, 0.03452112, 0.03622571, 0.038, 0.03984667, 0.041768, 0.043766, 0.04584267, 0.048, 0.05024368, 0.05257304, 0.05498056, 0.05745872, 0.06, 0.06260197, 0.06527752, 0.06804208, 0.07091109, 0.0739, 0.077016, 0.0802664, 0.0836668, 0.0872328, 0.09098, 0.09491755, 0.09904584, 0.1033674, 0.1078846, 0.1126, 0.117532, 0.1226744, 0.1279928, 0.1334528, 0.13902, 0.1446764, 0.1504693, 0.1564619, 0.1627177, 0.1693, 0.1762431, 0.1835581, 0.1912735, 0.199418, 0.20802, 0.2171199, 0.2267345, 0.2368571, 0.2474812, 0.2586, 0.2701849, 0.2822939, 0.2950505, 0.308578, 0.323, 0.3384021, 0.3546858, 0.3716986, 0.3892875, 0.4073, 0.4256299, 0.4443096, 0.4633944, 0.4829395, 0.503, 0.5235693, 0.544512, 0.56569, 0.5869653, 0.6082, 0.6293456, 0.6503068, 0.6708752, 0.6908424, 0.71, 0.7281852, 0.7454636, 0.7619694, 0.7778368, 0.7932, 0.8081104, 0.8224962, 0.8363068, 0.8494916, 0.862, 0.8738108, 0.8849624, 0.8954936, 0.9054432, 0.9148501, 0.9237348, 0.9320924, 0.9399226, 0.9472252, 0.954, 0.9602561, 0.9660074, 0.9712606, 0.9760225, 0.9803, 0.9840924, 0.9874182, 0.9903128, 0.9928116, 0.9949501, 0.9967108, 0.9980983, 0.999112, 0.9997482, 1.0, 0.9998567, 0.9993046, 0.9983255, 0.9968987, 0.995, 0.9926005, 0.9897426, 0.9864444, 0.9827241, 0.9786, 0.9740837, 0.9691712, 0.9638568, 0.9581349, 0.952, 0.9454504, 0.9384992, 0.9311628, 0.9234576, 0.9154, 0.9070064, 0.8982772, 0.8892048, 0.8797816, 0.87, 0.8598613, 0.849392, 0.838622, 0.8275813, 0.8163, 0.8047947, 0.793082, 0.781192, 0.7691547, 0.757, 0.7447541, 0.7324224, 0.7200036, 0.7074965, 0.6949, 0.6822192, 0.6694716, 0.6566744, 0.6438448, 0.631, 0.6181555, 0.6053144, 0.5924756, 0.5796379, 0.5668, 0.5539611, 0.5411372, 0.5283528, 0.5156323, 0.503, 0.4904688, 0.4780304, 0.4656776, 0.4534032, 0.4412, 0.42908, 0.417036, 0.405032, 0.393032, 0.381, 0.3689184, 0.3568272, 0.3447768, 0.3328176, 0.321, 0.3093381, 0.2978504, 0.2865936, 0.2756245, 0.265, 0.2547632, 0.2448896, 0.2353344, 0.2260528, 0.217, 0.2081616, 0.1995488, 0.1911552, 0.1829744, 0.175, 0.1672235, 0.1596464, 0.1522776, 0.1451259, 0.1382, 0.1315003, 0.1250248, 0.1187792, 0.1127691, 0.107, 0.1014762, 0.09618864, 0.09112296, 0.08626485, 0.0816, 0.07712064, 0.07282552, 0.06871008, 0.06476976, 0.061, 0.05739621, 0.05395504, 0.05067376, 0.04754965, 0.04458, 0.04175872, 0.03908496, 0.03656384, 0.03420048, 0.032, 0.02996261, 0.02807664, 0.02632936, 0.02470805, 0.0232, 0.02180077, 0.02050112, 0.01928108, 0.01812069, 0.017, 0.01590379, 0.01483718, 0.01381068, 0.01283478, 0.01192, 0.01106831, 0.01027339, 0.009533311, 0.008846157, 0.00821, 0.007623781, 0.007085424, 0.006591476, 0.006138485, 0.005723, 0.005343059, 0.004995796, 0.004676404, 0.004380075, 0.004102, 0.003838453, 0.003589099, 0.003354219, 0.003134093, 0.002929, 0.002738139, 0.002559876, 0.002393244, 0.002237275, 0.002091, 0.001953587, 0.00182458, 0.00170358, 0.001590187, 0.001484, 0.001384496, 0.001291268, 0.001204092, 0.001122744, 0.001047, 0.0009765896, 0.0009111088, 0.0008501332, 0.0007932384, 0.00074, 0.0006900827, 0.00064331, 0.000599496, 0.0005584547, 0.00052, 0.0004839136, 0.0004500528, 0.0004183452, 0.0003887184, 0.0003611, 0.0003353835, 0.0003114404, 0.0002891656, 0.0002684539, 0.0002492, 0.0002313019, 0.0002146856, 0.0001992884, 0.0001850475, 0.0001719, 0.0001597781, 0.0001486044, 0.0001383016, 0.0001287925, 0.00012, 0.0001118595, 0.0001043224, 9.73356e-5, 9.084587e-5, 8.48e-5, 7.914667e-5, 7.3858e-5, 6.8916e-5, 6.430267e-5, 6e-5, 5.598187e-5, 5.22256e-5, 4.87184e-5, 4.544747e-5, 4.24e-5, 3.956104e-5, 3.691512e-5, 3.444868e-5, 3.214816e-5, 3e-5, 2.799125e-5, 2.611356e-5, 2.436024e-5, 2.272461e-5, 2.12e-5, 1.977855e-5, 1.845285e-5, 1.721687e-5, 1.606459e-5, 1.499e-5, 1.398728e-5, 1.305155e-5, 1.217818e-5, 1.136254e-5, 1.06e-5, 9.885877e-6, 9.217304e-6, 8.592362e-6, 8.009133e-6, 7.4657e-6, 6.959567e-6, 6.487995e-6, 6.048699e-6, 5.639396e-6, 5.2578e-6, 4.901771e-6, 4.56972e-6, 4.260194e-6, 3.971739e-6, 3.7029e-6, 3.452163e-6, 3.218302e-6, 3.0003e-6, 2.797139e-6, 2.6078e-6, 2.43122e-6, 2.266531e-6, 2.113013e-6, 1.969943e-6, 1.8366e-6, 1.71223e-6, 1.596228e-6, 1.48809e-6, 1.387314e-6, 1.2934e-6, 1.20582e-6, 1.124143e-6, 1.048009e-6, 9.77058e-7, 9.1093e-7, 8.49251e-7, 7.91721e-7, 7.3809e-7, 6.8811e-7, 6.4153e-7, 5.9809e-7, 5.57575e-7, 5.19808e-7, 4.84612e-7, 4.5181e-7];
pub const CMF_Z_BAR: [f64; 471] = [0.0006061, 0.0006808792, 0.0007651456, 0.0008600124, 0.0009665928, 0.001086, 0.001220586, 0.001372729, 0.001543579, 0.001734286, 0.001946, 0.002177777, 0.002435809, 0.002731953, 0.003078064, 0.003486, 0.003975227, 0.00454088, 0.00515832, 0.005802907, 0.006450001, 0.007083216, 0.007745488, 0.008501152, 0.009414544, 0.01054999, 0.0119658, 0.01365587, 0.01558805, 0.01773015, 0.02005001, 0.02251136, 0.02520288, 0.02827972, 0.03189704, 0.03621, 0.04143771, 0.04750372, 0.05411988, 0.06099803, 0.06785001, 0.07448632, 0.08136156, 0.08915364, 0.09854048, 0.1102, 0.1246133, 0.1417017, 0.1613035, 0.1832568, 0.2074, 0.2336921, 0.2626114, 0.2947746, 0.3307985, 0.3713, 0.4162091, 0.4654642, 0.5196948, 0.5795303, 0.6456, 0.7184838, 0.7967133, 0.8778459, 0.959439, 1.0390501, 1.1153673, 1.1884971, 1.2581233, 1.3239296, 1.3856, 1.4426352, 1.4948035, 1.5421903, 1.5848807, 1.62296, 1.6564048, 1.6852959, 1.7098745, 1.7303821, 1.74706, 1.7600446, 1.7696233, 1.7762637, 1.7804334, 1.7826, 1.7829682, 1.7816998, 1.7791982, 1.7758671, 1.77211, 1.7682589, 1.764039, 1.7589438, 1.7524663, 1.7441, 1.7335595, 1.7208581, 1.7059369, 1.6887372, 1.6692, 1.6475287, 1.6234127, 1.5960223, 1.564528, 1.5281, 1.4861114, 1.4395215, 1.3898799, 1.3387362, 1.28764, 1.2374223, 1.1878243, 1.1387611, 1.090148, 1.0419, 0.9941976, 0.9473473, 0.9014531, 0.8566193, 0.8129501, 0.7705173, 0.7294448, 0.6899136, 0.6521049, 0.6162, 0.5823286, 0.5504162, 0.5203376, 0.4919673, 0.46518, 0.4399246, 0.4161836, 0.3938822, 0.3729459, 0.3533, 0.3348578, 0.3175521, 0.3013375, 0.2861686, 0.272, 0.2588171, 0.2464838, 0.2347718, 0.2234533, 0.2123, 0.2011692, 0.1901196, 0.1792254, 0.1685608, 0.1582, 0.1481383, 0.1383758, 0.1289942, 0.1200751, 0.1117, 0.1039048, 0.09666748, 0.08998272, 0.08384531, 0.07824999, 0.07320899, 0.06867816, 0.06456784, 0.06078835, 0.05725001, 0.05390435, 0.05074664, 0.04775276, 0.04489859, 0.04216, 0.03950728, 0.03693564, 0.03445836, 0.03208872, 0.02984, 0.02771181, 0.02569444, 0.02378716, 0.02198925, 0.0203, 0.01871805, 0.01724036, 0.01586364, 0.01458461, 0.0134, 0.01230723, 0.01130188, 0.01037792, 0.009529306, 0.008749999, 0.0080352, 0.0073816, 0.0067854, 0.0062428, 0.005749999, 0.0053036, 0.0048998, 0.0045342, 0.0042024, 0.0039, 0.0036232, 0.0033706, 0.0031414, 0.0029348, 0.002749999, 0.0025852, 0.0024386, 0.0023094, 0.0021968, 0.0021, 0.002017733, 0.0019482, 0.0018898, 0.001840933, 0.0018, 0.001766267, 0.0017378, 0.0017112, 0.001683067, 0.001650001, 0.001610133, 0.0015644, 0.0015136, 0.001458533, 0.0014, 0.001336667, 0.00127, 0.001205, 0.001146667, 0.0011, 0.0010688, 0.0010494, 0.0010356, 0.0010212, 0.001, 0.00096864, 0.00092992, 0.00088688, 0.00084256, 0.0008, 0.00076096, 0.00072368, 0.00068592, 0.00064544, 0.0006, 0.0005478667, 0.0004916, 0.0004354, 0.0003834667, 0.00034, 0.0003072533, 0.00028316, 0.00026544, 0.0002518133, 0.00024, 0.0002295467, 0.00022064, 0.00021196, 0.0002021867, 0.00019, 0.0001742133, 0.00015564, 0.00013596, 0.0001168533, 0.0001, 8.613333e-5, 7.46e-5, 6.5e-5, 5.693333e-5, 4.999999e-5, 4.416e-5, 3.948e-5, 3.572e-5, 3.264e-5, 3e-5, 2.765333e-5, 2.556e-5, 2.364e-5, 2.181333e-5, 2e-5, 1.813333e-5, 1.62e-5, 1.42e-5, 1.213333e-5, 1e-5, 7.733333e-6, 5.4e-6, 3.2e-6, 1.333333e-6, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0];
pub const W_X: [f32; 40] = [0.007864003, 0.021943716, 0.10113374, 0.37641487, 1.201253, 2.3836455, 3.4210927, 3.7058911, 3.2293897, 2.147445, 1.043705, 0.33237025, 0.045448862, 0.09799501, 0.63613546, 1.6681869, 2.8822784, 4.2531576, 5.625171, 6.9840503, 8.223134, 8.7149, 9.017013, 8.494691, 7.053844, 5.118834, 3.5186334, 2.1655114, 1.2513813, 0.6793317, 0.3410916, 0.1529736, 0.07575333, 0.039745037, 0.017583441, 0.009301683, 0.004820497, 0.0019897013, 0.0007646664, 0.00066248275];
pub const W_Y: [f32; 40] = [0.00022977173, 0.0006262101, 0.0027909619, 0.010074297, 0.035532217, 0.097848624, 0.22634786, 0.4181324, 0.6645068, 0.9974585, 1.5030977, 2.1609411, 3.3532846, 5.1298184, 7.069296, 8.7162075, 9.469337, 9.757864, 9.418205, 8.7167425, 7.810921, 6.4310174, 5.3522844, 4.2641664, 3.1467314, 2.1103814, 1.3743082, 0.8168528, 0.46272284, 0.24862072, 0.123956256, 0.05530837, 0.027350936, 0.014351813, 0.0063497024, 0.003359008, 0.0017407696, 0.0007185176, 0.00027613505, 0.00023923465];
pub const W_Z: [f32; 40] = [0.0369698, 0.10359817, 0.4789878, 1.7921637, 5.7718244, 11.636745, 17.1671, 19.543653, 18.531923, 14.12766, 8.860648, 4.8502107, 2.802866, 1.6023952, 0.7904825, 0.42011228, 0.20222588, 0.08563026, 0.036551744, 0.019242361, 0.0143702505, 0.00980659, 0.006733685, 0.0031827588, 0.0013983898, 0.00043452188, 0.00013802797, 1.702404e-5, -2.9371674e-6, 3e-24, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0];
pub const BABELCOLOR: [[f32; 40]; 24] = [[0.055, 0.058, 0.061, 0.062, 0.062, 0.062, 0.062, 0.062, 0.062, 0.062, 0.062, 0.063, 0.065, 0.07, 0.076, 0.079, 0.081, 0.084, 0.091, 0.103, 0.119, 0.134, 0.143, 0.147, 0.151, 0.158, 0.168, 0.179, 0.188, 0.19, 0.186, 0.181, 0.182, 0.187, 0.196, 0.209, 0.209, 0.209, 0.209, 0.209], [0.117, 0.143, 0.175, 0.191, 0.196, 0.199, 0.204, 0.213, 0.228, 0.251, 0.28, 0.309, 0.329, 0.333, 0.315, 0.286, 0.273, 0.276, 0.277, 0.289, 0.339, 0.42, 0.488, 0.525, 0.546, 0.562, 0.578, 0.595, 0.612, 0.625, 0.638, 0.656, 0.678, 0.7, 0.717, 0.734, 0.734, 0.734, 0.734, 0.734], [0.13, 0.177, 0.251, 0.306, 0.324, 0.33, 0.333, 0.331, 0.323, 0.311, 0.298, 0.285, 0.269, 0.25, 0.231, 0.214, 0.199, 0.185, 0.169, 0.157, 0.149, 0.145, 0.142, 0.141, 0.141, 0.141, 0.143, 0.147, 0.152, 0.154, 0.15, 0.144, 0.136, 0.132, 0.135, 0.147, 0.147, 0.147, 0.147, 0.147], [0.051, 0.054, 0.056, 0.057, 0.058, 0.059, 0.06, 0.061, 0.062, 0.063, 0.065, 0.067, 0.075, 0.101, 0.145, 0.178, 0.184, 0.17, 0.149, 0.133, 0.122, 0.115, 0.109, 0.105, 0.104, 0.106, 0.109, 0.112, 0.114, 0.114, 0.112, 0.112, 0.115, 0.12, 0.125, 0.13, 0.13, 0.13, 0.13, 0.13], [0.144, 0.198, 0.294, 0.375, 0.408, 0.421, 0.426, 0.426, 0.419, 0.403, 0.379, 0.346, 0.311, 0.281, 0.254, 0.229, 0.214, 0.208, 0.202, 0.194, 0.193, 0.2, 0.214, 0.23, 0.241, 0.254, 0.279, 0.313, 0.348, 0.366, 0.366, 0.359, 0.358, 0.365, 0.377, 0.398, 0.398, 0.398, 0.398, 0.398], [0.136, 0.179, 0.247, 0.297, 0.32, 0.337, 0.355, 0.381, 0.419, 0.466, 0.51, 0.546, 0.567, 0.574, 0.569, 0.551, 0.524, 0.488, 0.445, 0.4, 0.35, 0.299, 0.252, 0.221, 0.204, 0.196, 0.191, 0.188, 0.191, 0.199, 0.212, 0.223, 0.232, 0.233, 0.229, 0.229, 0.229, 0.229, 0.229, 0.229], [0.054, 0.054, 0.053, 0.054, 0.054, 0.055, 0.055, 0.055, 0.056, 0.057, 0.058, 0.061, 0.068, 0.089, 0.125, 0.154, 0.174, 0.199, 0.248, 0.335, 0.444, 0.538, 0.587, 0.595, 0.591, 0.587, 0.584, 0.584, 0.59, 0.603, 0.62, 0.639, 0.655, 0.663, 0.663, 0.667, 0.667, 0.667, 0.667, 0.667], [0.122, 0.164, 0.229, 0.286, 0.327, 0.361, 0.388, 0.4, 0.392, 0.362, 0.316, 0.26, 0.209, 0.168, 0.138, 0.117, 0.104, 0.096, 0.09, 0.086, 0.084, 0.084, 0.084, 0.084, 0.084, 0.085, 0.09, 0.098, 0.109, 0.123, 0.143, 0.169, 0.205, 0.244, 0.287, 0.332, 0.332, 0.332, 0.332, 0.332], [0.096, 0.115, 0.131, 0.135, 0.133, 0.132, 0.13, 0.128, 0.125, 0.12, 0.115, 0.11, 0.105, 0.1, 0.095, 0.093, 0.092, 0.093, 0.096, 0.108, 0.156, 0.265, 0.399, 0.5, 0.556, 0.579, 0.588, 0.591, 0.593, 0.594, 0.598, 0.602, 0.607, 0.609, 0.609, 0.61, 0.61, 0.61, 0.61, 0.61], [0.092, 0.116, 0.146, 0.169, 0.178, 0.173, 0.158, 0.139, 0.119, 0.101, 0.087, 0.075, 0.066, 0.06, 0.056, 0.053, 0.051, 0.051, 0.052, 0.052, 0.051, 0.052, 0.058, 0.073, 0.096, 0.119, 0.141, 0.166, 0.194, 0.227, 0.265, 0.309, 0.355, 0.396, 0.436, 0.478, 0.478, 0.478, 0.478, 0.478], [0.061, 0.061, 0.062, 0.063, 0.064, 0.066, 0.069, 0.075, 0.085, 0.105, 0.139, 0.192, 0.271, 0.376, 0.476, 0.531, 0.549, 0.546, 0.528, 0.504, 0.471, 0.428, 0.381, 0.347, 0.327, 0.318, 0.312, 0.31, 0.314, 0.327, 0.345, 0.363, 0.376, 0.381, 0.378, 0.379, 0.379, 0.379, 0.379, 0.379], [0.063, 0.063, 0.063, 0.064, 0.064, 0.064, 0.065, 0.066, 0.067, 0.068, 0.071, 0.076, 0.087, 0.125, 0.206, 0.305, 0.383, 0.431, 0.469, 0.518, 0.568, 0.607, 0.628, 0.637, 0.64, 0.642, 0.645, 0.648, 0.651, 0.653, 0.657, 0.664, 0.673, 0.68, 0.684, 0.688, 0.688, 0.688, 0.688, 0.688], [0.066, 0.079, 0.102, 0.146, 0.2, 0.244, 0.282, 0.309, 0.308, 0.278, 0.231, 0.178, 0.13, 0.094, 0.07, 0.054, 0.046, 0.042, 0.039, 0.038, 0.038, 0.038, 0.038, 0.039, 0.039, 0.04, 0.041, 0.042, 0.044, 0.045, 0.046, 0.046, 0.048, 0.052, 0.057, 0.065, 0.065, 0.065, 0.065, 0.065], [0.052, 0.053, 0.054, 0.055, 0.057, 0.059, 0.061, 0.066, 0.075, 0.093, 0.125, 0.178, 0.246, 0.307, 0.337, 0.334, 0.317, 0.293, 0.262, 0.23, 0.198, 0.165, 0.135, 0.115, 0.104, 0.098, 0.094, 0.092, 0.093, 0.097, 0.102, 0.108, 0.113, 0.115, 0.114, 0.114, 0.114, 0.114, 0.114, 0.114], [0.05, 0.049, 0.048, 0.047, 0.047, 0.047, 0.047, 0.047, 0.046, 0.045, 0.044, 0.044, 0.045, 0.046, 0.047, 0.048, 0.049, 0.05, 0.054, 0.06, 0.072, 0.104, 0.178, 0.312, 0.467, 0.581, 0.644, 0.675, 0.69, 0.698, 0.706, 0.715, 0.724, 0.73, 0.734, 0.738, 0.738, 0.738, 0.738, 0.738], [0.058, 0.054, 0.052, 0.052, 0.053, 0.054, 0.056, 0.059, 0.067, 0.081, 0.107, 0.152, 0.225, 0.336, 0.462, 0.559, 0.616, 0.65, 0.672, 0.694, 0.71, 0.723, 0.731, 0.739, 0.746, 0.752, 0.758, 0.764, 0.769, 0.771, 0.776, 0.782, 0.79, 0.796, 0.799, 0.804, 0.804, 0.804, 0.804, 0.804], [0.145, 0.195, 0.283, 0.346, 0.362, 0.354, 0.334, 0.306, 0.276, 0.248, 0.218, 0.19, 0.168, 0.149, 0.127, 0.107, 0.1, 0.102, 0.104, 0.109, 0.137, 0.2, 0.29, 0.4, 0.516, 0.615, 0.687, 0.732, 0.76, 0.774, 0.783, 0.793, 0.803, 0.812, 0.817, 0.825, 0.825, 0.825, 0.825, 0.825], [0.108, 0.141, 0.192, 0.236, 0.261, 0.286, 0.317, 0.353, 0.39, 0.426, 0.446, 0.444, 0.423, 0.385, 0.337, 0.283, 0.231, 0.185, 0.146, 0.118, 0.101, 0.09, 0.082, 0.076, 0.074, 0.073, 0.073, 0.074, 0.076, 0.077, 0.076, 0.075, 0.073, 0.072, 0.074, 0.079, 0.079, 0.079, 0.079, 0.079], [0.189, 0.255, 0.423, 0.66, 0.811, 0.862, 0.877, 0.884, 0.891, 0.896, 0.899, 0.904, 0.907, 0.909, 0.911, 0.91, 0.911, 0.914, 0.913, 0.916, 0.915, 0.916, 0.914, 0.915, 0.918, 0.919, 0.921, 0.923, 0.924, 0.922, 0.922, 0.925, 0.927, 0.93, 0.93, 0.933, 0.933, 0.933, 0.933, 0.933], [0.171, 0.232, 0.365, 0.507, 0.567, 0.583, 0.588, 0.59, 0.591, 0.59, 0.588, 0.588, 0.589, 0.589, 0.591, 0.59, 0.59, 0.59, 0.589, 0.591, 0.59, 0.59, 0.587, 0.585, 0.583, 0.58, 0.578, 0.576, 0.574, 0.572, 0.571, 0.569, 0.568, 0.568, 0.566, 0.566, 0.566, 0.566, 0.566, 0.566], [0.144, 0.192, 0.272, 0.331, 0.35, 0.357, 0.361, 0.363, 0.363, 0.361, 0.359, 0.358, 0.358, 0.359, 0.36, 0.36, 0.361, 0.361, 0.36, 0.362, 0.362, 0.361, 0.359, 0.358, 0.355, 0.352, 0.35, 0.348, 0.345, 0.343, 0.34, 0.338, 0.335, 0.334, 0.332, 0.331, 0.331, 0.331, 0.331, 0.331], [0.105, 0.131, 0.163, 0.18, 0.186, 0.19, 0.193, 0.194, 0.194, 0.192, 0.191, 0.191, 0.191, 0.192, 0.192, 0.192, 0.192, 0.192, 0.192, 0.193, 0.192, 0.192, 0.191, 0.189, 0.188, 0.186, 0.184, 0.182, 0.181, 0.179, 0.178, 0.176, 0.174, 0.173, 0.172, 0.171, 0.171, 0.171, 0.171, 0.171], [0.068, 0.077, 0.084, 0.087, 0.089, 0.09, 0.092, 0.092, 0.091, 0.09, 0.09, 0.09, 0.09, 0.09, 0.09, 0.09, 0.09, 0.09, 0.09, 0.09, 0.09, 0.089, 0.089, 0.088, 0.087, 0.086, 0.086, 0.085, 0.084, 0.084, 0.083, 0.083, 0.082, 0.081, 0.081, 0.081, 0.081, 0.081, 0.081, 0.081], [0.031, 0.032, 0.032, 0.033, 0.033, 0.033, 0.033, 0.033, 0.032, 0.032, 0.032, 0.032, 0.032, 0.032, 0.032, 0.032, 0.032, 0.032, 0.032, 0.032, 0.032, 0.032, 0.032, 0.032, 0.032, 0.032, 0.032, 0.032, 0.032, 0.032, 0.032, 0.032, 0.032, 0.032, 0.032, 0.033, 0.033, 0.033, 0.033, 0.033]];
