//! Nothing is compared here: the rules are on the typed program itself.
