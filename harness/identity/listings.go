package identity

import "github.com/greenpau/go-identity/pkg/requests"

// verifPublicKeys returns what a listing reports and the size of its bundle.
func verifPublicKeys(db *Database, r *requests.Request) ([]*PublicKey, int, error) {
	if err := db.GetPublicKeys(r); err != nil {
		return nil, 0, err
	}
	b, ok := r.Response.Payload.(*PublicKeyBundle)
	if !ok {
		return nil, -1, nil
	}
	return b.Get(), b.Size(), nil
}

func verifAPIKeys(db *Database, r *requests.Request) ([]*APIKey, int, error) {
	if err := db.GetAPIKeys(r); err != nil {
		return nil, 0, err
	}
	b, ok := r.Response.Payload.(*APIKeyBundle)
	if !ok {
		return nil, -1, nil
	}
	return b.Get(), b.Size(), nil
}

func verifMfaTokens(db *Database, r *requests.Request) ([]*MfaToken, int, error) {
	if err := db.GetMfaTokens(r); err != nil {
		return nil, 0, err
	}
	b, ok := r.Response.Payload.(*MfaTokenBundle)
	if !ok {
		return nil, -1, nil
	}
	return b.Get(), b.Size(), nil
}

func verifUsers(db *Database, r *requests.Request) ([]*UserMetadata, int, error) {
	if err := db.GetUsers(r); err != nil {
		return nil, 0, err
	}
	b, ok := r.Response.Payload.(*UserMetadataBundle)
	if !ok {
		return nil, -1, nil
	}
	return b.Get(), b.Size(), nil
}

func verifUser(db *Database, r *requests.Request) (*User, error) {
	if err := db.GetUser(r); err != nil {
		return nil, err
	}
	u, _ := r.Response.Payload.(*User)
	return u, nil
}
