package identity

// verifNameRoundTrip parses a name, formats it and parses the result.
func verifNameRoundTrip(s string) (a, b *Name, err1, err2 error) {
	a, err1 = ParseName(s)
	if err1 != nil {
		return a, nil, err1, nil
	}
	b, err2 = ParseName(a.GetFullName())
	return a, b, err1, err2
}

// verifRole returns how the granted role s is reported.
func verifRole(s string) (string, error) {
	r, err := NewRole(s)
	if err != nil {
		return "", err
	}
	return r.String(), nil
}
