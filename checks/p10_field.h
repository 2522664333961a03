struct fld {
    const char *name;
    int cnt, bits, mont;        /* limbs, bits of a limb */
    void (*mul)(void *, const void *, const void *), (*sqr)(void *, const void *, const void *), (*add)(void *, const void *, const void *),
         (*sub)(void *, const void *, const void *), (*opp)(void *, const void *, const void *), (*oppmul)(void *, const void *, const void *), (*inv)(void *, const void *, const void *);
    void (*out)(unsigned char *, const void *), (*raw)(unsigned char *, const void *), (*in)(void *, const unsigned char *);
    void (*sel)(void *, int, const void *, const void *);
};
