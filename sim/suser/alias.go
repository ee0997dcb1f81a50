//go:build go1.25

// Code generated by tools/aliasgen. DO NOT EDIT.

package suser

import "os/user"

type Group = user.Group
type UnknownGroupError = user.UnknownGroupError
type UnknownGroupIdError = user.UnknownGroupIdError
type UnknownUserError = user.UnknownUserError
type UnknownUserIdError = user.UnknownUserIdError
type User = user.User
