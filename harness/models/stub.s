// lets the package declare functions without bodies
