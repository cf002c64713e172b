// Package insecure stands for credentials that do nothing.
package insecure

type Creds struct{}

func NewCredentials() *Creds { return &Creds{} }
