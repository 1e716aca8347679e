//go:build simos

package checks

func init() { more = append(more, C09, C10, C11) }
