package hx

// Safe primes made with `openssl prime -safe -generate`.

// SmallSafePrimes have 192 bits: for histories in which the size of the modulus
// does not matter but its cost would.
var SmallSafePrimes = []string{
	"5242524465408800480866078334551446516551792718939640677827",
	"5788835602295227215823886048618953802191654177649586090659",
	"5121898313674460500480444527364350023445408468820018307159",
	"6017706213254980042538096987135728740643604647191748288307",
	"5407021603851540428061893170028601284911266346646055347423",
	"4816307005764297607554142873779845744092504159460334254627",
}

// SafePrimes have the 512 bits the system uses.
var SafePrimes = []string{
	"10098131736242837433564663736121571070095815073344981871294377949943043108065089975560641421345857389771061104342989403737490126982611262898898524877656543",
	"12650578944930093759234175863379024123559245496096355920310968801030593269826188529389017536433248108317835174834751676797732799795255712668623857616776679",
	"10887047150606783377734833179572284769116997329465319804465462918453430656053708798316397857338175433898194459670608677574593144303504106139064515528614979",
	"12192956392014696074861347501870224227895743141248580131970348841178988003413051556682554081536032585379369200077898528032912549033524209897392165648007179",
	"11165119131867300183613367395121632758716496515410841417710685904117273212153235077478054545720509899847829802117848875428110746774238009153986046522084759",
	"11454283866244265161501659531735885637590113029580765967459920573380759236624611385418357124020875465176890548022781291807273747957741902397585758088543147",
}
