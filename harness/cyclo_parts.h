#pragma once
// written by tools/gen_cyclo.py
struct CycloPart { int coord; const char *c0a, *c0b, *c2a, *c2b; };
static const CycloPart cycloPartsB[] = {
	{ 0, "8692885464951127820490079001162392487246898944329069237800118227420918820382", "14918718464221262007837961321987661320379767768966336852816946383602066047648", "3", "0" },
	{ 0, "11894385606962330347585842950102641164535722727708320435879167375413253214090", "521734839713831618218980141461113918457198485061705402442517818523562978206", "3", "0" },
	{ 1, "8338246686462053104152483162146811812993301063531068634193725491787646081276", "4169123343231026552076241581073405906496650531765534317096862745893823040638", "1", "0" },
	{ 1, "10182759083474586994365607438648781659415798784747512424875921619851599946479", "13490433907245209639653205790440257784652492953093291136904818522962176905601", "1", "0" },
	{ 2, "2166602931537711715276728160469108385837206485372587943554975260094312311989", "0", "4", "0" },
	{ 2, "307342400215564519356227561040459927250649015175536611076086437812382577246", "0", "4", "0" },
	{ 3, "2234658519784653640087864706058555239711002950178381311974773784509119296037", "14274575438100364443771501636217716862200142553713088370681366907936404870570", "3", "0" },
	{ 3, "5211498670652646466683889266233577126559030661484564518185459072102142092737", "16507205551251359063718520056348983277336163337192725775339380873631171968095", "3", "0" },
	{ 4, "1153038259210495736123999781527646158074439395076050451486687335233468969350", "0", "4", "0" },
	{ 4, "6908972794790192833905179238810526503196522960239138894398286905135514915435", "0", "4", "0" },
	{ 5, "5109511438443465832345968807346453844315815014414303139568340392421574121961", "3406340958962310554897312538230969229543876676276202093045560261614382747974", "2", "0" },
	{ 5, "6731903574994850246599756101311264412673135719029293523247062918814224719410", "4487935716663233497733170734207509608448757146019529015498041945876149812940", "2", "0" },
	{ 6, "733244257796341471655369704205208793041835364082530632885603886782721066028", "366622128898170735827684852102604396520917682041265316442801943391360533014", "1", "0" },
	{ 6, "7254839488971674595179186469022353593389715875880064828282198843182785683308", "3627419744485837297589593234511176796694857937940032414141099421591392841654", "1", "0" },
	{ 7, "4067724300576654092529204656132178437183770061725976752887050856163296929052", "2033862150288327046264602328066089218591885030862988376443525428081648464526", "1", "0" },
	{ 7, "10875544058032033187108164223799575409755717489869954525614555680349825979416", "5437772029016016593554082111899787704877858744934977262807277840174912989708", "1", "0" },
	{ 8, "4973503647486088623235530683662848394880261540409539341316739648147066134365", "16328709283876440681132251119420936728577086496386456892687841305664864999316", "3", "0" },
	{ 8, "13911768852384187199662129522831154311256082516615438830462403539467133594014", "2034772273780224257276195071007498778497468326742044198379944941563973263149", "3", "0" },
	{ 9, "15922064408127734981237596486297244064310897894003048244541419003523948742790", "0", "4", "0" },
	{ 9, "1198003121141548019654747008049135091907086075924212448086723125347369355082", "0", "4", "0" },
	{ 10, "9702655871138346971359949362534268889706870164667356882375868485560504733203", "869067670420287219259698194278934623174851069298547971939340515016085200561", "2", "0" },
	{ 10, "14358029464180373553967309024725353701272037213515007907048239761793815643724", "3972650065781638274331271302406324497551629101863648655054254699171625807575", "2", "0" },
	{ 11, "12214059715521632330007007580366566478924714245309153513530215060828333449194", "8142706477014421553338005053577710985949809496872769009020143373885555632796", "2", "0" },
	{ 11, "13198747341663541074854226805632976675710590559538508733693941974862712887994", "8799164894442360716569484537088651117140393706359005822462627983241808591996", "2", "0" },
};
static const CycloPart cycloPartsS[] = {
	{ 0, "10314010928329130756727179227251449142428266602676708278350187209336017827809", "2263447478287029261983782984124268084647122162683075293090380933340706818711", "3", "0" },
	{ 0, "12322860196465520548514675983362984824491682949602944470817468850750387550010", "20186266583268778022509209860150876162716917790851120184457620585385403766799", "3", "0" },
	{ 1, "18797742164159017032111955142797659973522774482205621250524193057088765712176", "5370783475474004866317701469370759992435078423487320357292626587739647346336", "1", "1" },
	{ 1, "18671737816726739935284024628866338029762653933451212218603815722517484408784", "17842349588687225822793381748394539487758650356584817012566254717659410521700", "1", "1" },
	{ 2, "9065344950767586056298262069086387359985709483420282782871998016439713379412", "3021781650255862018766087356362129119995236494473427594290666005479904459804", "4", "1" },
	{ 2, "2716866656677734273360821017775058845812375797329407515463174036207519613756", "8201703176172336498535742254344111311502895651542410392717403976950915274113", "4", "1" },
	{ 3, "19696700845327944776704735989207742299491558246911791001956333892279442445573", "13131133896885296517803157326138494866327705497941194001304222594852961630382", "2", "0" },
	{ 3, "5864599980019157695273498803086912970523362606784832336418713576729320685426", "18501895234572288611679936365562792039479782509388437332738500980916364596006", "2", "0" },
	{ 4, "1650937825717369178665485886022495502983012574061357808345237512065529433900", "825468912858684589332742943011247751491506287030678904172618756032764716950", "1", "0" },
	{ 4, "7569651026194179036358845616890208415610745938016636516400366416223372658184", "3784825513097089518179422808445104207805372969008318258200183208111686329092", "1", "0" },
	{ 5, "9632151715978013472790462992233962406193671411523452957088998578549808397762", "0", "4", "0" },
	{ 5, "20559109613680488615989469646613738924372766755693686579250153320590318903581", "0", "4", "0" },
	{ 6, "4816198816911281061875306676692118245203166178979013409727453617092531183357", "17802961125833704189414474947966262222599651557517891381610994341158504927960", "2", "0" },
	{ 6, "18672478319563162995339133120745048538569191543522968367479477176323272781184", "5152237922429016922810620165410940662814023976582704357423305486000439784595", "2", "0" },
	{ 7, "12770694274798356729428578559363458786968880682539957892061398788657643477115", "8513796183198904486285719039575639191312587121693305261374265859105095651410", "2", "0" },
	{ 7, "20509538196965653615739422944930583356864607232326962783100491260014680887037", "13673025464643769077159615296620388904576404821551308522066994173343120591358", "2", "0" },
	{ 8, "648027440124549183615253119526803128958356712741261808370456013593909202949", "3219467187423403486551665552112011173950666838577012210151356272605590773076", "3", "2" },
	{ 8, "6947069667350564391876539736641285694819710049696740288034225621643608202969", "7246222201575587833767050175307976553173190337756055373344614487276294374305", "3", "2" },
	{ 9, "3484941792703714369370530497366754856202764096898146321764679383085413380223", "12686592332271494795808468121312014972449537627097984992226858638865319794403", "1", "0" },
	{ 9, "3731626689932869585541716994518922378177847549830042267011619257216297395499", "12809934780886072403894061369888098733437079353563932964850328575930761802041", "1", "0" },
	{ 10, "1536070222834122985018149275131053523641263170841290240442461724758957841716", "1152052667125592238763611956348290142730947378130967680331846293569218381287", "3", "0" },
	{ 10, "9709228833374395468093432213977850300470303739222766476547144480997274537556", "7281921625030796601070074160483387725352727804417074857410358360747955903167", "3", "0" },
	{ 11, "1291307144326472992256329484607376867260963506931894451627715914653818610544", "968480358244854744192247113455532650445722630198920838720786935990363957908", "3", "0" },
	{ 11, "2368482371728295906490075384659049042379544446579886585457728923603380069521", "18192543932675678346552360847437243098306891702908282686110075113686454708578", "3", "0" },
};
