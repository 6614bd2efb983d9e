package identity

// verifGrant grants a role and asks for it.
func verifGrant(user *User, s string) (bool, error) {
	err := user.AddRole(s)
	return user.HasRole(s), err
}
