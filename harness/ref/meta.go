package ref

// MetaText is the ABNF of ABNF: RFC 5234 section 4 with RFC 7405 and errata
// 2968 and 3076, transcribed from the RFCs.
const MetaText = "rulelist = 1*( rule / (*WSP c-nl) )\r\n" +
	"rule = rulename defined-as elements c-nl\r\n" +
	"rulename = ALPHA *(ALPHA / DIGIT / \"-\")\r\n" +
	"defined-as = *c-wsp (\"=\" / \"=/\") *c-wsp\r\n" +
	"elements = alternation *WSP\r\n" +
	"c-wsp = WSP / (c-nl WSP)\r\n" +
	"c-nl = comment / CRLF\r\n" +
	"comment = \";\" *(WSP / VCHAR) CRLF\r\n" +
	"alternation = concatenation *(*c-wsp \"/\" *c-wsp concatenation)\r\n" +
	"concatenation = repetition *(1*c-wsp repetition)\r\n" +
	"repetition = [repeat] element\r\n" +
	"repeat = 1*DIGIT / (*DIGIT \"*\" *DIGIT)\r\n" +
	"element = rulename / group / option / char-val / num-val / prose-val\r\n" +
	"group = \"(\" *c-wsp alternation *c-wsp \")\"\r\n" +
	"option = \"[\" *c-wsp alternation *c-wsp \"]\"\r\n" +
	"char-val = case-insensitive-string / case-sensitive-string\r\n" +
	"case-insensitive-string = [ \"%i\" ] quoted-string\r\n" +
	"case-sensitive-string = \"%s\" quoted-string\r\n" +
	"quoted-string = DQUOTE *(%x20-21 / %x23-7E) DQUOTE\r\n" +
	"num-val = \"%\" (bin-val / dec-val / hex-val)\r\n" +
	"bin-val = \"b\" 1*BIT [ 1*(\".\" 1*BIT) / (\"-\" 1*BIT) ]\r\n" +
	"dec-val = \"d\" 1*DIGIT [ 1*(\".\" 1*DIGIT) / (\"-\" 1*DIGIT) ]\r\n" +
	"hex-val = \"x\" 1*HEXDIG [ 1*(\".\" 1*HEXDIG) / (\"-\" 1*HEXDIG) ]\r\n" +
	"prose-val = \"<\" *(%x20-3D / %x3F-7E) \">\"\r\n"
