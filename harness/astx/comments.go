package astx

import "strings"

// ScanComments returns the comments of a Starlark source text, in order, by an
// independent scan of strings and comments.
func ScanComments(s string) []string {
	var r []string
	i := 0
	for i < len(s) {
		c := s[i]
		switch {
		case c == '#':
			j := strings.IndexByte(s[i:], '\n')
			if j < 0 {
				j = len(s) - i
			}
			r = append(r, strings.TrimSpace(s[i:i+j]))
			i += j
		case c == '"' || c == '\'':
			q := s[i : i+1]
			if strings.HasPrefix(s[i:], q+q+q) {
				q = q + q + q
			}
			i += len(q)
			for i < len(s) && !strings.HasPrefix(s[i:], q) {
				if s[i] == '\\' {
					i++
				}
				i++
			}
			i += len(q)
		default:
			i++
		}
	}
	return r
}
