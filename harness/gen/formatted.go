package gen

// formatted values are like what other software recognises and tidies up;
// every 9 stands for some digit.
var formatted = []string{
	"2999-09-19", "2999-9-9", "2999-09-19 09:29:39", "2999-09-19T09:29:39Z", "2999-09-19 09:29:39.999", "2999-09-19T09:29:39+09:00", "2999/09/19", "19.09.2999", "09:29", "09:29:39",
	"20990919", "99", "099", "0099", "-9", "+9", "9.9", "9.90", "-9.9e9", "9e9", "9E99", "1e400", ".9", "9.", "9,999", "9_999", "0x9f", "0b1", "0o9", "Inf", "-Inf", "NaN", "9223372036854775899",
	"99999999999999999999", "99%", "$9.99", "9 kg", "yes", "no", "on", "off", "t", "f", "True", "FALSE", "Null", "nil", "none", "undefined", "N/A",
	"f9999999-9999-4999-8999-999999999999", "F9999999-9999-4999-8999-999999999999", "someone9@example.com", "Someone9@Example.COM", "https://example.com/a%20b?q=9&r=9#x", "/var/lib/x9", "../x9", `C:\x9`,
	"999.9.9.9", "::9", `{"a":9}`, "[9,9]", "[]", "{9}", "a=9&b=9", "a,b,9", "a;b", "a|b", "&lt;9&gt;", "&amp;", "%41%42", `\u0041`, `\x41`, `\0`, `\\`, `\%`, `\_`,
	"e\u0301", "\u00e9", "\u212b", "\u00c5", "\ufb01", "\uff41\uff19", "\u202e9", "\u200b", "x\u200by", "YWJj9Q==", "#f99f99", "+9 999 999", "v9.9.9", "9 days", "P9D", "9h9m",
	"now()", "CURRENT_TIMESTAMP", "x'99'", "X'9A'", "b'1'", "N'x9'", "E'x9'", "$$x9$$", "q'[x9]'", "''", "''''", "x''9", `""`, `""""`, "gorm.Expr", "<nil>", "(9)", "9)", "NULL)", "column:9",
}

func (g *G) formatted() string {
	b := []byte(Pick(g.R, formatted))
	for i, c := range b {
		if c == '9' {
			b[i] = byte('0' + g.n(10))
		}
	}
	return string(b)
}
