/* generated by tools/gen_unidata.pl from Unicode 15.0.0 */
static const struct { uint32_t first; char gc[3]; uint8_t flags; } uni_runs[] = {
{0x0,"Cc",16},{0x20,"Zs",16},{0x21,"Po",16},{0x24,"Sc",16},{0x25,"Po",16},{0x28,"Ps",16},{0x29,"Pe",16},{0x2A,"Po",16},
{0x2B,"Sm",16},{0x2C,"Po",16},{0x2D,"Pd",16},{0x2E,"Po",16},{0x30,"Nd",16},{0x3A,"Po",16},{0x3C,"Sm",16},{0x3F,"Po",16},
{0x41,"Lu",22},{0x5B,"Ps",16},{0x5C,"Po",16},{0x5D,"Pe",16},{0x5E,"Sk",16},{0x5F,"Pc",16},{0x60,"Sk",16},{0x61,"Ll",21},
{0x7B,"Ps",16},{0x7C,"Sm",16},{0x7D,"Pe",16},{0x7E,"Sm",16},{0x7F,"Cc",16},{0xA0,"Zs",16},{0xA1,"Po",16},{0xA2,"Sc",16},
{0xA6,"So",16},{0xA7,"Po",16},{0xA8,"Sk",16},{0xA9,"So",16},{0xAA,"Lo",21},{0xAB,"Pi",16},{0xAC,"Sm",16},{0xAD,"Cf",16},
{0xAE,"So",16},{0xAF,"Sk",16},{0xB0,"So",16},{0xB1,"Sm",16},{0xB2,"No",16},{0xB4,"Sk",16},{0xB5,"Ll",21},{0xB6,"Po",16},
{0xB8,"Sk",16},{0xB9,"No",16},{0xBA,"Lo",21},{0xBB,"Pf",16},{0xBC,"No",16},{0xBF,"Po",16},{0xC0,"Lu",22},{0xD7,"Sm",16},
{0xD8,"Lu",22},{0xDF,"Ll",21},{0xF7,"Sm",16},{0xF8,"Ll",21},{0x100,"Lu",22},{0x101,"Ll",21},{0x102,"Lu",22},{0x103,"Ll",21},
{0x104,"Lu",22},{0x105,"Ll",21},{0x106,"Lu",22},{0x107,"Ll",21},{0x108,"Lu",22},{0x109,"Ll",21},{0x10A,"Lu",22},{0x10B,"Ll",21},
{0x10C,"Lu",22},{0x10D,"Ll",21},{0x10E,"Lu",22},{0x10F,"Ll",21},{0x110,"Lu",22},{0x111,"Ll",21},{0x112,"Lu",22},{0x113,"Ll",21},
{0x114,"Lu",22},{0x115,"Ll",21},{0x116,"Lu",22},{0x117,"Ll",21},{0x118,"Lu",22},{0x119,"Ll",21},{0x11A,"Lu",22},{0x11B,"Ll",21},
{0x11C,"Lu",22},{0x11D,"Ll",21},{0x11E,"Lu",22},{0x11F,"Ll",21},{0x120,"Lu",22},{0x121,"Ll",21},{0x122,"Lu",22},{0x123,"Ll",21},
{0x124,"Lu",22},{0x125,"Ll",21},{0x126,"Lu",22},{0x127,"Ll",21},{0x128,"Lu",22},{0x129,"Ll",21},{0x12A,"Lu",22},{0x12B,"Ll",21},
{0x12C,"Lu",22},{0x12D,"Ll",21},{0x12E,"Lu",22},{0x12F,"Ll",21},{0x130,"Lu",22},{0x131,"Ll",21},{0x132,"Lu",22},{0x133,"Ll",21},
{0x134,"Lu",22},{0x135,"Ll",21},{0x136,"Lu",22},{0x137,"Ll",21},{0x139,"Lu",22},{0x13A,"Ll",21},{0x13B,"Lu",22},{0x13C,"Ll",21},
{0x13D,"Lu",22},{0x13E,"Ll",21},{0x13F,"Lu",22},{0x140,"Ll",21},{0x141,"Lu",22},{0x142,"Ll",21},{0x143,"Lu",22},{0x144,"Ll",21},
{0x145,"Lu",22},{0x146,"Ll",21},{0x147,"Lu",22},{0x148,"Ll",21},{0x14A,"Lu",22},{0x14B,"Ll",21},{0x14C,"Lu",22},{0x14D,"Ll",21},
{0x14E,"Lu",22},{0x14F,"Ll",21},{0x150,"Lu",22},{0x151,"Ll",21},{0x152,"Lu",22},{0x153,"Ll",21},{0x154,"Lu",22},{0x155,"Ll",21},
{0x156,"Lu",22},{0x157,"Ll",21},{0x158,"Lu",22},{0x159,"Ll",21},{0x15A,"Lu",22},{0x15B,"Ll",21},{0x15C,"Lu",22},{0x15D,"Ll",21},
{0x15E,"Lu",22},{0x15F,"Ll",21},{0x160,"Lu",22},{0x161,"Ll",21},{0x162,"Lu",22},{0x163,"Ll",21},{0x164,"Lu",22},{0x165,"Ll",21},
{0x166,"Lu",22},{0x167,"Ll",21},{0x168,"Lu",22},{0x169,"Ll",21},{0x16A,"Lu",22},{0x16B,"Ll",21},{0x16C,"Lu",22},{0x16D,"Ll",21},
{0x16E,"Lu",22},{0x16F,"Ll",21},{0x170,"Lu",22},{0x171,"Ll",21},{0x172,"Lu",22},{0x173,"Ll",21},{0x174,"Lu",22},{0x175,"Ll",21},
{0x176,"Lu",22},{0x177,"Ll",21},{0x178,"Lu",22},{0x17A,"Ll",21},{0x17B,"Lu",22},{0x17C,"Ll",21},{0x17D,"Lu",22},{0x17E,"Ll",21},
{0x181,"Lu",22},{0x183,"Ll",21},{0x184,"Lu",22},{0x185,"Ll",21},{0x186,"Lu",22},{0x188,"Ll",21},{0x189,"Lu",22},{0x18C,"Ll",21},
{0x18E,"Lu",22},{0x192,"Ll",21},{0x193,"Lu",22},{0x195,"Ll",21},{0x196,"Lu",22},{0x199,"Ll",21},{0x19C,"Lu",22},{0x19E,"Ll",21},
{0x19F,"Lu",22},{0x1A1,"Ll",21},{0x1A2,"Lu",22},{0x1A3,"Ll",21},{0x1A4,"Lu",22},{0x1A5,"Ll",21},{0x1A6,"Lu",22},{0x1A8,"Ll",21},
{0x1A9,"Lu",22},{0x1AA,"Ll",21},{0x1AC,"Lu",22},{0x1AD,"Ll",21},{0x1AE,"Lu",22},{0x1B0,"Ll",21},{0x1B1,"Lu",22},{0x1B4,"Ll",21},
{0x1B5,"Lu",22},{0x1B6,"Ll",21},{0x1B7,"Lu",22},{0x1B9,"Ll",21},{0x1BB,"Lo",20},{0x1BC,"Lu",22},{0x1BD,"Ll",21},{0x1C0,"Lo",20},
{0x1C4,"Lu",22},{0x1C5,"Lt",20},{0x1C6,"Ll",21},{0x1C7,"Lu",22},{0x1C8,"Lt",20},{0x1C9,"Ll",21},{0x1CA,"Lu",22},{0x1CB,"Lt",20},
{0x1CC,"Ll",21},{0x1CD,"Lu",22},{0x1CE,"Ll",21},{0x1CF,"Lu",22},{0x1D0,"Ll",21},{0x1D1,"Lu",22},{0x1D2,"Ll",21},{0x1D3,"Lu",22},
{0x1D4,"Ll",21},{0x1D5,"Lu",22},{0x1D6,"Ll",21},{0x1D7,"Lu",22},{0x1D8,"Ll",21},{0x1D9,"Lu",22},{0x1DA,"Ll",21},{0x1DB,"Lu",22},
{0x1DC,"Ll",21},{0x1DE,"Lu",22},{0x1DF,"Ll",21},{0x1E0,"Lu",22},{0x1E1,"Ll",21},{0x1E2,"Lu",22},{0x1E3,"Ll",21},{0x1E4,"Lu",22},
{0x1E5,"Ll",21},{0x1E6,"Lu",22},{0x1E7,"Ll",21},{0x1E8,"Lu",22},{0x1E9,"Ll",21},{0x1EA,"Lu",22},{0x1EB,"Ll",21},{0x1EC,"Lu",22},
{0x1ED,"Ll",21},{0x1EE,"Lu",22},{0x1EF,"Ll",21},{0x1F1,"Lu",22},{0x1F2,"Lt",20},{0x1F3,"Ll",21},{0x1F4,"Lu",22},{0x1F5,"Ll",21},
{0x1F6,"Lu",22},{0x1F9,"Ll",21},{0x1FA,"Lu",22},{0x1FB,"Ll",21},{0x1FC,"Lu",22},{0x1FD,"Ll",21},{0x1FE,"Lu",22},{0x1FF,"Ll",21},
{0x200,"Lu",22},{0x201,"Ll",21},{0x202,"Lu",22},{0x203,"Ll",21},{0x204,"Lu",22},{0x205,"Ll",21},{0x206,"Lu",22},{0x207,"Ll",21},
{0x208,"Lu",22},{0x209,"Ll",21},{0x20A,"Lu",22},{0x20B,"Ll",21},{0x20C,"Lu",22},{0x20D,"Ll",21},{0x20E,"Lu",22},{0x20F,"Ll",21},
{0x210,"Lu",22},{0x211,"Ll",21},{0x212,"Lu",22},{0x213,"Ll",21},{0x214,"Lu",22},{0x215,"Ll",21},{0x216,"Lu",22},{0x217,"Ll",21},
{0x218,"Lu",22},{0x219,"Ll",21},{0x21A,"Lu",22},{0x21B,"Ll",21},{0x21C,"Lu",22},{0x21D,"Ll",21},{0x21E,"Lu",22},{0x21F,"Ll",21},
{0x220,"Lu",22},{0x221,"Ll",21},{0x222,"Lu",22},{0x223,"Ll",21},{0x224,"Lu",22},{0x225,"Ll",21},{0x226,"Lu",22},{0x227,"Ll",21},
{0x228,"Lu",22},{0x229,"Ll",21},{0x22A,"Lu",22},{0x22B,"Ll",21},{0x22C,"Lu",22},{0x22D,"Ll",21},{0x22E,"Lu",22},{0x22F,"Ll",21},
{0x230,"Lu",22},{0x231,"Ll",21},{0x232,"Lu",22},{0x233,"Ll",21},{0x23A,"Lu",22},{0x23C,"Ll",21},{0x23D,"Lu",22},{0x23F,"Ll",21},
{0x241,"Lu",22},{0x242,"Ll",21},{0x243,"Lu",22},{0x247,"Ll",21},{0x248,"Lu",22},{0x249,"Ll",21},{0x24A,"Lu",22},{0x24B,"Ll",21},
{0x24C,"Lu",22},{0x24D,"Ll",21},{0x24E,"Lu",22},{0x24F,"Ll",21},{0x294,"Lo",20},{0x295,"Ll",21},{0x2B0,"Lm",21},{0x2B9,"Lm",20},
{0x2C0,"Lm",21},{0x2C2,"Sk",16},{0x2C6,"Lm",20},{0x2D2,"Sk",16},{0x2E0,"Lm",21},{0x2E5,"Sk",16},{0x2EC,"Lm",20},{0x2ED,"Sk",16},
{0x2EE,"Lm",20},{0x2EF,"Sk",16},{0x300,"Mn",16},{0x345,"Mn",21},{0x346,"Mn",16},{0x370,"Lu",22},{0x371,"Ll",21},{0x372,"Lu",22},
{0x373,"Ll",21},{0x374,"Lm",20},{0x375,"Sk",16},{0x376,"Lu",22},{0x377,"Ll",21},{0x378,"Cn",0},{0x37A,"Lm",21},{0x37B,"Ll",21},
{0x37E,"Po",16},{0x37F,"Lu",22},{0x380,"Cn",0},{0x384,"Sk",16},{0x386,"Lu",22},{0x387,"Po",16},{0x388,"Lu",22},{0x38B,"Cn",0},
{0x38C,"Lu",22},{0x38D,"Cn",0},{0x38E,"Lu",22},{0x390,"Ll",21},{0x391,"Lu",22},{0x3A2,"Cn",0},{0x3A3,"Lu",22},{0x3AC,"Ll",21},
{0x3CF,"Lu",22},{0x3D0,"Ll",21},{0x3D2,"Lu",22},{0x3D5,"Ll",21},{0x3D8,"Lu",22},{0x3D9,"Ll",21},{0x3DA,"Lu",22},{0x3DB,"Ll",21},
{0x3DC,"Lu",22},{0x3DD,"Ll",21},{0x3DE,"Lu",22},{0x3DF,"Ll",21},{0x3E0,"Lu",22},{0x3E1,"Ll",21},{0x3E2,"Lu",22},{0x3E3,"Ll",21},
{0x3E4,"Lu",22},{0x3E5,"Ll",21},{0x3E6,"Lu",22},{0x3E7,"Ll",21},{0x3E8,"Lu",22},{0x3E9,"Ll",21},{0x3EA,"Lu",22},{0x3EB,"Ll",21},
{0x3EC,"Lu",22},{0x3ED,"Ll",21},{0x3EE,"Lu",22},{0x3EF,"Ll",21},{0x3F4,"Lu",22},{0x3F5,"Ll",21},{0x3F6,"Sm",16},{0x3F7,"Lu",22},
{0x3F8,"Ll",21},{0x3F9,"Lu",22},{0x3FB,"Ll",21},{0x3FD,"Lu",22},{0x430,"Ll",21},{0x460,"Lu",22},{0x461,"Ll",21},{0x462,"Lu",22},
{0x463,"Ll",21},{0x464,"Lu",22},{0x465,"Ll",21},{0x466,"Lu",22},{0x467,"Ll",21},{0x468,"Lu",22},{0x469,"Ll",21},{0x46A,"Lu",22},
{0x46B,"Ll",21},{0x46C,"Lu",22},{0x46D,"Ll",21},{0x46E,"Lu",22},{0x46F,"Ll",21},{0x470,"Lu",22},{0x471,"Ll",21},{0x472,"Lu",22},
{0x473,"Ll",21},{0x474,"Lu",22},{0x475,"Ll",21},{0x476,"Lu",22},{0x477,"Ll",21},{0x478,"Lu",22},{0x479,"Ll",21},{0x47A,"Lu",22},
{0x47B,"Ll",21},{0x47C,"Lu",22},{0x47D,"Ll",21},{0x47E,"Lu",22},{0x47F,"Ll",21},{0x480,"Lu",22},{0x481,"Ll",21},{0x482,"So",16},
{0x483,"Mn",16},{0x488,"Me",16},{0x48A,"Lu",22},{0x48B,"Ll",21},{0x48C,"Lu",22},{0x48D,"Ll",21},{0x48E,"Lu",22},{0x48F,"Ll",21},
{0x490,"Lu",22},{0x491,"Ll",21},{0x492,"Lu",22},{0x493,"Ll",21},{0x494,"Lu",22},{0x495,"Ll",21},{0x496,"Lu",22},{0x497,"Ll",21},
{0x498,"Lu",22},{0x499,"Ll",21},{0x49A,"Lu",22},{0x49B,"Ll",21},{0x49C,"Lu",22},{0x49D,"Ll",21},{0x49E,"Lu",22},{0x49F,"Ll",21},
{0x4A0,"Lu",22},{0x4A1,"Ll",21},{0x4A2,"Lu",22},{0x4A3,"Ll",21},{0x4A4,"Lu",22},{0x4A5,"Ll",21},{0x4A6,"Lu",22},{0x4A7,"Ll",21},
{0x4A8,"Lu",22},{0x4A9,"Ll",21},{0x4AA,"Lu",22},{0x4AB,"Ll",21},{0x4AC,"Lu",22},{0x4AD,"Ll",21},{0x4AE,"Lu",22},{0x4AF,"Ll",21},
{0x4B0,"Lu",22},{0x4B1,"Ll",21},{0x4B2,"Lu",22},{0x4B3,"Ll",21},{0x4B4,"Lu",22},{0x4B5,"Ll",21},{0x4B6,"Lu",22},{0x4B7,"Ll",21},
{0x4B8,"Lu",22},{0x4B9,"Ll",21},{0x4BA,"Lu",22},{0x4BB,"Ll",21},{0x4BC,"Lu",22},{0x4BD,"Ll",21},{0x4BE,"Lu",22},{0x4BF,"Ll",21},
{0x4C0,"Lu",22},{0x4C2,"Ll",21},{0x4C3,"Lu",22},{0x4C4,"Ll",21},{0x4C5,"Lu",22},{0x4C6,"Ll",21},{0x4C7,"Lu",22},{0x4C8,"Ll",21},
{0x4C9,"Lu",22},{0x4CA,"Ll",21},{0x4CB,"Lu",22},{0x4CC,"Ll",21},{0x4CD,"Lu",22},{0x4CE,"Ll",21},{0x4D0,"Lu",22},{0x4D1,"Ll",21},
{0x4D2,"Lu",22},{0x4D3,"Ll",21},{0x4D4,"Lu",22},{0x4D5,"Ll",21},{0x4D6,"Lu",22},{0x4D7,"Ll",21},{0x4D8,"Lu",22},{0x4D9,"Ll",21},
{0x4DA,"Lu",22},{0x4DB,"Ll",21},{0x4DC,"Lu",22},{0x4DD,"Ll",21},{0x4DE,"Lu",22},{0x4DF,"Ll",21},{0x4E0,"Lu",22},{0x4E1,"Ll",21},
{0x4E2,"Lu",22},{0x4E3,"Ll",21},{0x4E4,"Lu",22},{0x4E5,"Ll",21},{0x4E6,"Lu",22},{0x4E7,"Ll",21},{0x4E8,"Lu",22},{0x4E9,"Ll",21},
{0x4EA,"Lu",22},{0x4EB,"Ll",21},{0x4EC,"Lu",22},{0x4ED,"Ll",21},{0x4EE,"Lu",22},{0x4EF,"Ll",21},{0x4F0,"Lu",22},{0x4F1,"Ll",21},
{0x4F2,"Lu",22},{0x4F3,"Ll",21},{0x4F4,"Lu",22},{0x4F5,"Ll",21},{0x4F6,"Lu",22},{0x4F7,"Ll",21},{0x4F8,"Lu",22},{0x4F9,"Ll",21},
{0x4FA,"Lu",22},{0x4FB,"Ll",21},{0x4FC,"Lu",22},{0x4FD,"Ll",21},{0x4FE,"Lu",22},{0x4FF,"Ll",21},{0x500,"Lu",22},{0x501,"Ll",21},
{0x502,"Lu",22},{0x503,"Ll",21},{0x504,"Lu",22},{0x505,"Ll",21},{0x506,"Lu",22},{0x507,"Ll",21},{0x508,"Lu",22},{0x509,"Ll",21},
{0x50A,"Lu",22},{0x50B,"Ll",21},{0x50C,"Lu",22},{0x50D,"Ll",21},{0x50E,"Lu",22},{0x50F,"Ll",21},{0x510,"Lu",22},{0x511,"Ll",21},
{0x512,"Lu",22},{0x513,"Ll",21},{0x514,"Lu",22},{0x515,"Ll",21},{0x516,"Lu",22},{0x517,"Ll",21},{0x518,"Lu",22},{0x519,"Ll",21},
{0x51A,"Lu",22},{0x51B,"Ll",21},{0x51C,"Lu",22},{0x51D,"Ll",21},{0x51E,"Lu",22},{0x51F,"Ll",21},{0x520,"Lu",22},{0x521,"Ll",21},
{0x522,"Lu",22},{0x523,"Ll",21},{0x524,"Lu",22},{0x525,"Ll",21},{0x526,"Lu",22},{0x527,"Ll",21},{0x528,"Lu",22},{0x529,"Ll",21},
{0x52A,"Lu",22},{0x52B,"Ll",21},{0x52C,"Lu",22},{0x52D,"Ll",21},{0x52E,"Lu",22},{0x52F,"Ll",21},{0x530,"Cn",0},{0x531,"Lu",22},
{0x557,"Cn",0},{0x559,"Lm",20},{0x55A,"Po",16},{0x560,"Ll",5},{0x561,"Ll",21},{0x588,"Ll",5},{0x589,"Po",16},{0x58A,"Pd",16},
{0x58B,"Cn",0},{0x58D,"So",16},{0x58F,"Sc",16},{0x590,"Cn",0},{0x591,"Mn",16},{0x5B0,"Mn",20},{0x5BE,"Pd",16},{0x5BF,"Mn",20},
{0x5C0,"Po",16},{0x5C1,"Mn",20},{0x5C3,"Po",16},{0x5C4,"Mn",20},{0x5C6,"Po",16},{0x5C7,"Mn",20},{0x5C8,"Cn",0},{0x5D0,"Lo",20},
{0x5EB,"Cn",0},{0x5EF,"Lo",4},{0x5F0,"Lo",20},{0x5F3,"Po",16},{0x5F5,"Cn",0},{0x600,"Cf",16},{0x606,"Sm",16},{0x609,"Po",16},
{0x60B,"Sc",16},{0x60C,"Po",16},{0x60E,"So",16},{0x610,"Mn",20},{0x61B,"Po",16},{0x61C,"Cf",16},{0x61D,"Po",0},{0x61E,"Po",16},
{0x620,"Lo",20},{0x640,"Lm",20},{0x641,"Lo",20},{0x64B,"Mn",20},{0x658,"Mn",16},{0x659,"Mn",20},{0x660,"Nd",16},{0x66A,"Po",16},
{0x66E,"Lo",20},{0x670,"Mn",20},{0x671,"Lo",20},{0x6D4,"Po",16},{0x6D5,"Lo",20},{0x6D6,"Mn",20},{0x6DD,"Cf",16},{0x6DE,"So",16},
{0x6DF,"Mn",16},{0x6E1,"Mn",20},{0x6E5,"Lm",20},{0x6E7,"Mn",20},{0x6E9,"So",16},{0x6EA,"Mn",16},{0x6ED,"Mn",20},{0x6EE,"Lo",20},
{0x6F0,"Nd",16},{0x6FA,"Lo",20},{0x6FD,"So",16},{0x6FF,"Lo",20},{0x700,"Po",16},{0x70E,"Cn",0},{0x70F,"Cf",16},{0x710,"Lo",20},
{0x711,"Mn",20},{0x712,"Lo",20},{0x730,"Mn",20},{0x740,"Mn",16},{0x74B,"Cn",0},{0x74D,"Lo",20},{0x7A6,"Mn",20},{0x7B1,"Lo",20},
{0x7B2,"Cn",0},{0x7C0,"Nd",16},{0x7CA,"Lo",20},{0x7EB,"Mn",16},{0x7F4,"Lm",20},{0x7F6,"So",16},{0x7F7,"Po",16},{0x7FA,"Lm",20},
{0x7FB,"Cn",0},{0x7FD,"Mn",0},{0x7FE,"Sc",0},{0x800,"Lo",20},{0x816,"Mn",20},{0x818,"Mn",16},{0x81A,"Lm",20},{0x81B,"Mn",20},
{0x824,"Lm",20},{0x825,"Mn",20},{0x828,"Lm",20},{0x829,"Mn",20},{0x82D,"Mn",16},{0x82E,"Cn",0},{0x830,"Po",16},{0x83F,"Cn",0},
{0x840,"Lo",20},{0x859,"Mn",16},{0x85C,"Cn",0},{0x85E,"Po",16},{0x85F,"Cn",0},{0x860,"Lo",20},{0x86B,"Cn",0},{0x870,"Lo",4},
{0x888,"Sk",0},{0x889,"Lo",4},{0x88F,"Cn",0},{0x890,"Cf",0},{0x892,"Cn",0},{0x898,"Mn",0},{0x8A0,"Lo",20},{0x8B5,"Lo",4},
{0x8B6,"Lo",20},{0x8BE,"Lo",4},{0x8C9,"Lm",4},{0x8CA,"Mn",0},{0x8D4,"Mn",20},{0x8E0,"Mn",16},{0x8E2,"Cf",16},{0x8E3,"Mn",20},
{0x8EA,"Mn",16},{0x8F0,"Mn",20},{0x903,"Mc",20},{0x904,"Lo",20},{0x93A,"Mn",20},{0x93B,"Mc",20},{0x93C,"Mn",16},{0x93D,"Lo",20},
{0x93E,"Mc",20},{0x941,"Mn",20},{0x949,"Mc",20},{0x94D,"Mn",16},{0x94E,"Mc",20},{0x950,"Lo",20},{0x951,"Mn",16},{0x955,"Mn",20},
{0x958,"Lo",20},{0x962,"Mn",20},{0x964,"Po",16},{0x966,"Nd",16},{0x970,"Po",16},{0x971,"Lm",20},{0x972,"Lo",20},{0x981,"Mn",20},
{0x982,"Mc",20},{0x984,"Cn",0},{0x985,"Lo",20},{0x98D,"Cn",0},{0x98F,"Lo",20},{0x991,"Cn",0},{0x993,"Lo",20},{0x9A9,"Cn",0},
{0x9AA,"Lo",20},{0x9B1,"Cn",0},{0x9B2,"Lo",20},{0x9B3,"Cn",0},{0x9B6,"Lo",20},{0x9BA,"Cn",0},{0x9BC,"Mn",16},{0x9BD,"Lo",20},
{0x9BE,"Mc",20},{0x9C1,"Mn",20},{0x9C5,"Cn",0},{0x9C7,"Mc",20},{0x9C9,"Cn",0},{0x9CB,"Mc",20},{0x9CD,"Mn",16},{0x9CE,"Lo",20},
{0x9CF,"Cn",0},{0x9D7,"Mc",20},{0x9D8,"Cn",0},{0x9DC,"Lo",20},{0x9DE,"Cn",0},{0x9DF,"Lo",20},{0x9E2,"Mn",20},{0x9E4,"Cn",0},
{0x9E6,"Nd",16},{0x9F0,"Lo",20},{0x9F2,"Sc",16},{0x9F4,"No",16},{0x9FA,"So",16},{0x9FB,"Sc",16},{0x9FC,"Lo",20},{0x9FD,"Po",16},
{0x9FE,"Mn",0},{0x9FF,"Cn",0},{0xA01,"Mn",20},{0xA03,"Mc",20},{0xA04,"Cn",0},{0xA05,"Lo",20},{0xA0B,"Cn",0},{0xA0F,"Lo",20},
{0xA11,"Cn",0},{0xA13,"Lo",20},{0xA29,"Cn",0},{0xA2A,"Lo",20},{0xA31,"Cn",0},{0xA32,"Lo",20},{0xA34,"Cn",0},{0xA35,"Lo",20},
{0xA37,"Cn",0},{0xA38,"Lo",20},{0xA3A,"Cn",0},{0xA3C,"Mn",16},{0xA3D,"Cn",0},{0xA3E,"Mc",20},{0xA41,"Mn",20},{0xA43,"Cn",0},
{0xA47,"Mn",20},{0xA49,"Cn",0},{0xA4B,"Mn",20},{0xA4D,"Mn",16},{0xA4E,"Cn",0},{0xA51,"Mn",20},{0xA52,"Cn",0},{0xA59,"Lo",20},
{0xA5D,"Cn",0},{0xA5E,"Lo",20},{0xA5F,"Cn",0},{0xA66,"Nd",16},{0xA70,"Mn",20},{0xA72,"Lo",20},{0xA75,"Mn",20},{0xA76,"Po",0},
{0xA77,"Cn",0},{0xA81,"Mn",20},{0xA83,"Mc",20},{0xA84,"Cn",0},{0xA85,"Lo",20},{0xA8E,"Cn",0},{0xA8F,"Lo",20},{0xA92,"Cn",0},
{0xA93,"Lo",20},{0xAA9,"Cn",0},{0xAAA,"Lo",20},{0xAB1,"Cn",0},{0xAB2,"Lo",20},{0xAB4,"Cn",0},{0xAB5,"Lo",20},{0xABA,"Cn",0},
{0xABC,"Mn",16},{0xABD,"Lo",20},{0xABE,"Mc",20},{0xAC1,"Mn",20},{0xAC6,"Cn",0},{0xAC7,"Mn",20},{0xAC9,"Mc",20},{0xACA,"Cn",0},
{0xACB,"Mc",20},{0xACD,"Mn",16},{0xACE,"Cn",0},{0xAD0,"Lo",20},{0xAD1,"Cn",0},{0xAE0,"Lo",20},{0xAE2,"Mn",20},{0xAE4,"Cn",0},
{0xAE6,"Nd",16},{0xAF0,"Po",16},{0xAF1,"Sc",16},{0xAF2,"Cn",0},{0xAF9,"Lo",20},{0xAFA,"Mn",20},{0xAFD,"Mn",16},{0xB00,"Cn",0},
{0xB01,"Mn",20},{0xB02,"Mc",20},{0xB04,"Cn",0},{0xB05,"Lo",20},{0xB0D,"Cn",0},{0xB0F,"Lo",20},{0xB11,"Cn",0},{0xB13,"Lo",20},
{0xB29,"Cn",0},{0xB2A,"Lo",20},{0xB31,"Cn",0},{0xB32,"Lo",20},{0xB34,"Cn",0},{0xB35,"Lo",20},{0xB3A,"Cn",0},{0xB3C,"Mn",16},
{0xB3D,"Lo",20},{0xB3E,"Mc",20},{0xB3F,"Mn",20},{0xB40,"Mc",20},{0xB41,"Mn",20},{0xB45,"Cn",0},{0xB47,"Mc",20},{0xB49,"Cn",0},
{0xB4B,"Mc",20},{0xB4D,"Mn",16},{0xB4E,"Cn",0},{0xB55,"Mn",0},{0xB56,"Mn",20},{0xB57,"Mc",20},{0xB58,"Cn",0},{0xB5C,"Lo",20},
{0xB5E,"Cn",0},{0xB5F,"Lo",20},{0xB62,"Mn",20},{0xB64,"Cn",0},{0xB66,"Nd",16},{0xB70,"So",16},{0xB71,"Lo",20},{0xB72,"No",16},
{0xB78,"Cn",0},{0xB82,"Mn",20},{0xB83,"Lo",20},{0xB84,"Cn",0},{0xB85,"Lo",20},{0xB8B,"Cn",0},{0xB8E,"Lo",20},{0xB91,"Cn",0},
{0xB92,"Lo",20},{0xB96,"Cn",0},{0xB99,"Lo",20},{0xB9B,"Cn",0},{0xB9C,"Lo",20},{0xB9D,"Cn",0},{0xB9E,"Lo",20},{0xBA0,"Cn",0},
{0xBA3,"Lo",20},{0xBA5,"Cn",0},{0xBA8,"Lo",20},{0xBAB,"Cn",0},{0xBAE,"Lo",20},{0xBBA,"Cn",0},{0xBBE,"Mc",20},{0xBC0,"Mn",20},
{0xBC1,"Mc",20},{0xBC3,"Cn",0},{0xBC6,"Mc",20},{0xBC9,"Cn",0},{0xBCA,"Mc",20},{0xBCD,"Mn",16},{0xBCE,"Cn",0},{0xBD0,"Lo",20},
{0xBD1,"Cn",0},{0xBD7,"Mc",20},{0xBD8,"Cn",0},{0xBE6,"Nd",16},{0xBF0,"No",16},{0xBF3,"So",16},{0xBF9,"Sc",16},{0xBFA,"So",16},
{0xBFB,"Cn",0},{0xC00,"Mn",20},{0xC01,"Mc",20},{0xC04,"Mn",4},{0xC05,"Lo",20},{0xC0D,"Cn",0},{0xC0E,"Lo",20},{0xC11,"Cn",0},
{0xC12,"Lo",20},{0xC29,"Cn",0},{0xC2A,"Lo",20},{0xC3A,"Cn",0},{0xC3C,"Mn",0},{0xC3D,"Lo",20},{0xC3E,"Mn",20},{0xC41,"Mc",20},
{0xC45,"Cn",0},{0xC46,"Mn",20},{0xC49,"Cn",0},{0xC4A,"Mn",20},{0xC4D,"Mn",16},{0xC4E,"Cn",0},{0xC55,"Mn",20},{0xC57,"Cn",0},
{0xC58,"Lo",20},{0xC5B,"Cn",0},{0xC5D,"Lo",4},{0xC5E,"Cn",0},{0xC60,"Lo",20},{0xC62,"Mn",20},{0xC64,"Cn",0},{0xC66,"Nd",16},
{0xC70,"Cn",0},{0xC77,"Po",0},{0xC78,"No",16},{0xC7F,"So",16},{0xC80,"Lo",20},{0xC81,"Mn",20},{0xC82,"Mc",20},{0xC84,"Po",0},
{0xC85,"Lo",20},{0xC8D,"Cn",0},{0xC8E,"Lo",20},{0xC91,"Cn",0},{0xC92,"Lo",20},{0xCA9,"Cn",0},{0xCAA,"Lo",20},{0xCB4,"Cn",0},
{0xCB5,"Lo",20},{0xCBA,"Cn",0},{0xCBC,"Mn",16},{0xCBD,"Lo",20},{0xCBE,"Mc",20},{0xCBF,"Mn",20},{0xCC0,"Mc",20},{0xCC5,"Cn",0},
{0xCC6,"Mn",20},{0xCC7,"Mc",20},{0xCC9,"Cn",0},{0xCCA,"Mc",20},{0xCCC,"Mn",20},{0xCCD,"Mn",16},{0xCCE,"Cn",0},{0xCD5,"Mc",20},
{0xCD7,"Cn",0},{0xCDD,"Lo",4},{0xCDE,"Lo",20},{0xCDF,"Cn",0},{0xCE0,"Lo",20},{0xCE2,"Mn",20},{0xCE4,"Cn",0},{0xCE6,"Nd",16},
{0xCF0,"Cn",0},{0xCF1,"Lo",20},{0xCF3,"Mc",4},{0xCF4,"Cn",0},{0xD00,"Mn",20},{0xD02,"Mc",20},{0xD04,"Lo",4},{0xD05,"Lo",20},
{0xD0D,"Cn",0},{0xD0E,"Lo",20},{0xD11,"Cn",0},{0xD12,"Lo",20},{0xD3B,"Mn",16},{0xD3D,"Lo",20},{0xD3E,"Mc",20},{0xD41,"Mn",20},
{0xD45,"Cn",0},{0xD46,"Mc",20},{0xD49,"Cn",0},{0xD4A,"Mc",20},{0xD4D,"Mn",16},{0xD4E,"Lo",20},{0xD4F,"So",16},{0xD50,"Cn",0},
{0xD54,"Lo",20},{0xD57,"Mc",20},{0xD58,"No",16},{0xD5F,"Lo",20},{0xD62,"Mn",20},{0xD64,"Cn",0},{0xD66,"Nd",16},{0xD70,"No",16},
{0xD79,"So",16},{0xD7A,"Lo",20},{0xD80,"Cn",0},{0xD81,"Mn",4},{0xD82,"Mc",20},{0xD84,"Cn",0},{0xD85,"Lo",20},{0xD97,"Cn",0},
{0xD9A,"Lo",20},{0xDB2,"Cn",0},{0xDB3,"Lo",20},{0xDBC,"Cn",0},{0xDBD,"Lo",20},{0xDBE,"Cn",0},{0xDC0,"Lo",20},{0xDC7,"Cn",0},
{0xDCA,"Mn",16},{0xDCB,"Cn",0},{0xDCF,"Mc",20},{0xDD2,"Mn",20},{0xDD5,"Cn",0},{0xDD6,"Mn",20},{0xDD7,"Cn",0},{0xDD8,"Mc",20},
{0xDE0,"Cn",0},{0xDE6,"Nd",16},{0xDF0,"Cn",0},{0xDF2,"Mc",20},{0xDF4,"Po",16},{0xDF5,"Cn",0},{0xE01,"Lo",20},{0xE31,"Mn",20},
{0xE32,"Lo",20},{0xE34,"Mn",20},{0xE3B,"Cn",0},{0xE3F,"Sc",16},{0xE40,"Lo",20},{0xE46,"Lm",20},{0xE47,"Mn",16},{0xE4D,"Mn",20},
{0xE4E,"Mn",16},{0xE4F,"Po",16},{0xE50,"Nd",16},{0xE5A,"Po",16},{0xE5C,"Cn",0},{0xE81,"Lo",20},{0xE83,"Cn",0},{0xE84,"Lo",20},
{0xE85,"Cn",0},{0xE86,"Lo",4},{0xE87,"Lo",20},{0xE89,"Lo",4},{0xE8A,"Lo",20},{0xE8B,"Cn",0},{0xE8C,"Lo",4},{0xE8D,"Lo",20},
{0xE8E,"Lo",4},{0xE94,"Lo",20},{0xE98,"Lo",4},{0xE99,"Lo",20},{0xEA0,"Lo",4},{0xEA1,"Lo",20},{0xEA4,"Cn",0},{0xEA5,"Lo",20},
{0xEA6,"Cn",0},{0xEA7,"Lo",20},{0xEA8,"Lo",4},{0xEAA,"Lo",20},{0xEAC,"Lo",4},{0xEAD,"Lo",20},{0xEB1,"Mn",20},{0xEB2,"Lo",20},
{0xEB4,"Mn",20},{0xEBA,"Mn",0},{0xEBB,"Mn",20},{0xEBD,"Lo",20},{0xEBE,"Cn",0},{0xEC0,"Lo",20},{0xEC5,"Cn",0},{0xEC6,"Lm",20},
{0xEC7,"Cn",0},{0xEC8,"Mn",16},{0xECD,"Mn",20},{0xECE,"Mn",0},{0xECF,"Cn",0},{0xED0,"Nd",16},{0xEDA,"Cn",0},{0xEDC,"Lo",20},
{0xEE0,"Cn",0},{0xF00,"Lo",20},{0xF01,"So",16},{0xF04,"Po",16},{0xF13,"So",16},{0xF14,"Po",16},{0xF15,"So",16},{0xF18,"Mn",16},
{0xF1A,"So",16},{0xF20,"Nd",16},{0xF2A,"No",16},{0xF34,"So",16},{0xF35,"Mn",16},{0xF36,"So",16},{0xF37,"Mn",16},{0xF38,"So",16},
{0xF39,"Mn",16},{0xF3A,"Ps",16},{0xF3B,"Pe",16},{0xF3C,"Ps",16},{0xF3D,"Pe",16},{0xF3E,"Mc",16},{0xF40,"Lo",20},{0xF48,"Cn",0},
{0xF49,"Lo",20},{0xF6D,"Cn",0},{0xF71,"Mn",20},{0xF7F,"Mc",20},{0xF80,"Mn",20},{0xF84,"Mn",16},{0xF85,"Po",16},{0xF86,"Mn",16},
{0xF88,"Lo",20},{0xF8D,"Mn",20},{0xF98,"Cn",0},{0xF99,"Mn",20},{0xFBD,"Cn",0},{0xFBE,"So",16},{0xFC6,"Mn",16},{0xFC7,"So",16},
{0xFCD,"Cn",0},{0xFCE,"So",16},{0xFD0,"Po",16},{0xFD5,"So",16},{0xFD9,"Po",16},{0xFDB,"Cn",0},{0x1000,"Lo",20},{0x102B,"Mc",20},
{0x102D,"Mn",20},{0x1031,"Mc",20},{0x1032,"Mn",20},{0x1037,"Mn",16},{0x1038,"Mc",20},{0x1039,"Mn",16},{0x103B,"Mc",20},{0x103D,"Mn",20},
{0x103F,"Lo",20},{0x1040,"Nd",16},{0x104A,"Po",16},{0x1050,"Lo",20},{0x1056,"Mc",20},{0x1058,"Mn",20},{0x105A,"Lo",20},{0x105E,"Mn",20},
{0x1061,"Lo",20},{0x1062,"Mc",20},{0x1065,"Lo",20},{0x1067,"Mc",20},{0x106E,"Lo",20},{0x1071,"Mn",20},{0x1075,"Lo",20},{0x1082,"Mn",20},
{0x1083,"Mc",20},{0x1085,"Mn",20},{0x1087,"Mc",20},{0x108D,"Mn",20},{0x108E,"Lo",20},{0x108F,"Mc",20},{0x1090,"Nd",16},{0x109A,"Mc",20},
{0x109D,"Mn",20},{0x109E,"So",16},{0x10A0,"Lu",22},{0x10C6,"Cn",0},{0x10C7,"Lu",22},{0x10C8,"Cn",0},{0x10CD,"Lu",22},{0x10CE,"Cn",0},
{0x10D0,"Ll",21},{0x10FB,"Po",16},{0x10FC,"Lm",21},{0x10FD,"Ll",21},{0x1100,"Lo",20},{0x1249,"Cn",0},{0x124A,"Lo",20},{0x124E,"Cn",0},
{0x1250,"Lo",20},{0x1257,"Cn",0},{0x1258,"Lo",20},{0x1259,"Cn",0},{0x125A,"Lo",20},{0x125E,"Cn",0},{0x1260,"Lo",20},{0x1289,"Cn",0},
{0x128A,"Lo",20},{0x128E,"Cn",0},{0x1290,"Lo",20},{0x12B1,"Cn",0},{0x12B2,"Lo",20},{0x12B6,"Cn",0},{0x12B8,"Lo",20},{0x12BF,"Cn",0},
{0x12C0,"Lo",20},{0x12C1,"Cn",0},{0x12C2,"Lo",20},{0x12C6,"Cn",0},{0x12C8,"Lo",20},{0x12D7,"Cn",0},{0x12D8,"Lo",20},{0x1311,"Cn",0},
{0x1312,"Lo",20},{0x1316,"Cn",0},{0x1318,"Lo",20},{0x135B,"Cn",0},{0x135D,"Mn",16},{0x1360,"Po",16},{0x1369,"No",16},{0x137D,"Cn",0},
{0x1380,"Lo",20},{0x1390,"So",16},{0x139A,"Cn",0},{0x13A0,"Lu",22},{0x13F6,"Cn",0},{0x13F8,"Ll",21},{0x13FE,"Cn",0},{0x1400,"Pd",16},
{0x1401,"Lo",20},{0x166D,"So",16},{0x166E,"Po",16},{0x166F,"Lo",20},{0x1680,"Zs",16},{0x1681,"Lo",20},{0x169B,"Ps",16},{0x169C,"Pe",16},
{0x169D,"Cn",0},{0x16A0,"Lo",20},{0x16EB,"Po",16},{0x16EE,"Nl",20},{0x16F1,"Lo",20},{0x16F9,"Cn",0},{0x1700,"Lo",20},{0x170D,"Lo",4},
{0x170E,"Lo",20},{0x1712,"Mn",20},{0x1714,"Mn",16},{0x1715,"Mc",0},{0x1716,"Cn",0},{0x171F,"Lo",4},{0x1720,"Lo",20},{0x1732,"Mn",20},
{0x1734,"Mc",16},{0x1735,"Po",16},{0x1737,"Cn",0},{0x1740,"Lo",20},{0x1752,"Mn",20},{0x1754,"Cn",0},{0x1760,"Lo",20},{0x176D,"Cn",0},
{0x176E,"Lo",20},{0x1771,"Cn",0},{0x1772,"Mn",20},{0x1774,"Cn",0},{0x1780,"Lo",20},{0x17B4,"Mn",16},{0x17B6,"Mc",20},{0x17B7,"Mn",20},
{0x17BE,"Mc",20},{0x17C6,"Mn",20},{0x17C7,"Mc",20},{0x17C9,"Mn",16},{0x17D4,"Po",16},{0x17D7,"Lm",20},{0x17D8,"Po",16},{0x17DB,"Sc",16},
{0x17DC,"Lo",20},{0x17DD,"Mn",16},{0x17DE,"Cn",0},{0x17E0,"Nd",16},{0x17EA,"Cn",0},{0x17F0,"No",16},{0x17FA,"Cn",0},{0x1800,"Po",16},
{0x1806,"Pd",16},{0x1807,"Po",16},{0x180B,"Mn",16},{0x180E,"Cf",16},{0x180F,"Mn",0},{0x1810,"Nd",16},{0x181A,"Cn",0},{0x1820,"Lo",20},
{0x1843,"Lm",20},{0x1844,"Lo",20},{0x1878,"Lo",4},{0x1879,"Cn",0},{0x1880,"Lo",20},{0x1885,"Mn",20},{0x1887,"Lo",20},{0x18A9,"Mn",20},
{0x18AA,"Lo",20},{0x18AB,"Cn",0},{0x18B0,"Lo",20},{0x18F6,"Cn",0},{0x1900,"Lo",20},{0x191F,"Cn",0},{0x1920,"Mn",20},{0x1923,"Mc",20},
{0x1927,"Mn",20},{0x1929,"Mc",20},{0x192C,"Cn",0},{0x1930,"Mc",20},{0x1932,"Mn",20},{0x1933,"Mc",20},{0x1939,"Mn",16},{0x193C,"Cn",0},
{0x1940,"So",16},{0x1941,"Cn",0},{0x1944,"Po",16},{0x1946,"Nd",16},{0x1950,"Lo",20},{0x196E,"Cn",0},{0x1970,"Lo",20},{0x1975,"Cn",0},
{0x1980,"Lo",20},{0x19AC,"Cn",0},{0x19B0,"Lo",20},{0x19CA,"Cn",0},{0x19D0,"Nd",16},{0x19DA,"No",16},{0x19DB,"Cn",0},{0x19DE,"So",16},
{0x1A00,"Lo",20},{0x1A17,"Mn",20},{0x1A19,"Mc",20},{0x1A1B,"Mn",20},{0x1A1C,"Cn",0},{0x1A1E,"Po",16},{0x1A20,"Lo",20},{0x1A55,"Mc",20},
{0x1A56,"Mn",20},{0x1A57,"Mc",20},{0x1A58,"Mn",20},{0x1A5F,"Cn",0},{0x1A60,"Mn",16},{0x1A61,"Mc",20},{0x1A62,"Mn",20},{0x1A63,"Mc",20},
{0x1A65,"Mn",20},{0x1A6D,"Mc",20},{0x1A73,"Mn",20},{0x1A75,"Mn",16},{0x1A7D,"Cn",0},{0x1A7F,"Mn",16},{0x1A80,"Nd",16},{0x1A8A,"Cn",0},
{0x1A90,"Nd",16},{0x1A9A,"Cn",0},{0x1AA0,"Po",16},{0x1AA7,"Lm",20},{0x1AA8,"Po",16},{0x1AAE,"Cn",0},{0x1AB0,"Mn",16},{0x1ABE,"Me",16},
{0x1ABF,"Mn",4},{0x1AC1,"Mn",0},{0x1ACC,"Mn",4},{0x1ACF,"Cn",0},{0x1B00,"Mn",20},{0x1B04,"Mc",20},{0x1B05,"Lo",20},{0x1B34,"Mn",16},
{0x1B35,"Mc",20},{0x1B36,"Mn",20},{0x1B3B,"Mc",20},{0x1B3C,"Mn",20},{0x1B3D,"Mc",20},{0x1B42,"Mn",20},{0x1B43,"Mc",20},{0x1B44,"Mc",16},
{0x1B45,"Lo",20},{0x1B4C,"Lo",4},{0x1B4D,"Cn",0},{0x1B50,"Nd",16},{0x1B5A,"Po",16},{0x1B61,"So",16},{0x1B6B,"Mn",16},{0x1B74,"So",16},
{0x1B7D,"Po",0},{0x1B7F,"Cn",0},{0x1B80,"Mn",20},{0x1B82,"Mc",20},{0x1B83,"Lo",20},{0x1BA1,"Mc",20},{0x1BA2,"Mn",20},{0x1BA6,"Mc",20},
{0x1BA8,"Mn",20},{0x1BAA,"Mc",16},{0x1BAB,"Mn",16},{0x1BAC,"Mn",20},{0x1BAE,"Lo",20},{0x1BB0,"Nd",16},{0x1BBA,"Lo",20},{0x1BE6,"Mn",16},
{0x1BE7,"Mc",20},{0x1BE8,"Mn",20},{0x1BEA,"Mc",20},{0x1BED,"Mn",20},{0x1BEE,"Mc",20},{0x1BEF,"Mn",20},{0x1BF2,"Mc",16},{0x1BF4,"Cn",0},
{0x1BFC,"Po",16},{0x1C00,"Lo",20},{0x1C24,"Mc",20},{0x1C2C,"Mn",20},{0x1C34,"Mc",20},{0x1C36,"Mn",20},{0x1C37,"Mn",16},{0x1C38,"Cn",0},
{0x1C3B,"Po",16},{0x1C40,"Nd",16},{0x1C4A,"Cn",0},{0x1C4D,"Lo",20},{0x1C50,"Nd",16},{0x1C5A,"Lo",20},{0x1C78,"Lm",20},{0x1C7E,"Po",16},
{0x1C80,"Ll",21},{0x1C89,"Cn",0},{0x1C90,"Lu",6},{0x1CBB,"Cn",0},{0x1CBD,"Lu",6},{0x1CC0,"Po",16},{0x1CC8,"Cn",0},{0x1CD0,"Mn",16},
{0x1CD3,"Po",16},{0x1CD4,"Mn",16},{0x1CE1,"Mc",16},{0x1CE2,"Mn",16},{0x1CE9,"Lo",20},{0x1CED,"Mn",16},{0x1CEE,"Lo",20},{0x1CF4,"Mn",16},
{0x1CF5,"Lo",20},{0x1CF7,"Mc",16},{0x1CF8,"Mn",16},{0x1CFA,"Lo",4},{0x1CFB,"Cn",0},{0x1D00,"Ll",21},{0x1D2C,"Lm",21},{0x1D6B,"Ll",21},
{0x1D78,"Lm",21},{0x1D79,"Ll",21},{0x1D9B,"Lm",21},{0x1DC0,"Mn",16},{0x1DE7,"Mn",20},{0x1DF5,"Mn",16},{0x1DFA,"Mn",0},{0x1DFB,"Mn",16},
{0x1E00,"Lu",22},{0x1E01,"Ll",21},{0x1E02,"Lu",22},{0x1E03,"Ll",21},{0x1E04,"Lu",22},{0x1E05,"Ll",21},{0x1E06,"Lu",22},{0x1E07,"Ll",21},
{0x1E08,"Lu",22},{0x1E09,"Ll",21},{0x1E0A,"Lu",22},{0x1E0B,"Ll",21},{0x1E0C,"Lu",22},{0x1E0D,"Ll",21},{0x1E0E,"Lu",22},{0x1E0F,"Ll",21},
{0x1E10,"Lu",22},{0x1E11,"Ll",21},{0x1E12,"Lu",22},{0x1E13,"Ll",21},{0x1E14,"Lu",22},{0x1E15,"Ll",21},{0x1E16,"Lu",22},{0x1E17,"Ll",21},
{0x1E18,"Lu",22},{0x1E19,"Ll",21},{0x1E1A,"Lu",22},{0x1E1B,"Ll",21},{0x1E1C,"Lu",22},{0x1E1D,"Ll",21},{0x1E1E,"Lu",22},{0x1E1F,"Ll",21},
{0x1E20,"Lu",22},{0x1E21,"Ll",21},{0x1E22,"Lu",22},{0x1E23,"Ll",21},{0x1E24,"Lu",22},{0x1E25,"Ll",21},{0x1E26,"Lu",22},{0x1E27,"Ll",21},
{0x1E28,"Lu",22},{0x1E29,"Ll",21},{0x1E2A,"Lu",22},{0x1E2B,"Ll",21},{0x1E2C,"Lu",22},{0x1E2D,"Ll",21},{0x1E2E,"Lu",22},{0x1E2F,"Ll",21},
{0x1E30,"Lu",22},{0x1E31,"Ll",21},{0x1E32,"Lu",22},{0x1E33,"Ll",21},{0x1E34,"Lu",22},{0x1E35,"Ll",21},{0x1E36,"Lu",22},{0x1E37,"Ll",21},
{0x1E38,"Lu",22},{0x1E39,"Ll",21},{0x1E3A,"Lu",22},{0x1E3B,"Ll",21},{0x1E3C,"Lu",22},{0x1E3D,"Ll",21},{0x1E3E,"Lu",22},{0x1E3F,"Ll",21},
{0x1E40,"Lu",22},{0x1E41,"Ll",21},{0x1E42,"Lu",22},{0x1E43,"Ll",21},{0x1E44,"Lu",22},{0x1E45,"Ll",21},{0x1E46,"Lu",22},{0x1E47,"Ll",21},
{0x1E48,"Lu",22},{0x1E49,"Ll",21},{0x1E4A,"Lu",22},{0x1E4B,"Ll",21},{0x1E4C,"Lu",22},{0x1E4D,"Ll",21},{0x1E4E,"Lu",22},{0x1E4F,"Ll",21},
{0x1E50,"Lu",22},{0x1E51,"Ll",21},{0x1E52,"Lu",22},{0x1E53,"Ll",21},{0x1E54,"Lu",22},{0x1E55,"Ll",21},{0x1E56,"Lu",22},{0x1E57,"Ll",21},
{0x1E58,"Lu",22},{0x1E59,"Ll",21},{0x1E5A,"Lu",22},{0x1E5B,"Ll",21},{0x1E5C,"Lu",22},{0x1E5D,"Ll",21},{0x1E5E,"Lu",22},{0x1E5F,"Ll",21},
{0x1E60,"Lu",22},{0x1E61,"Ll",21},{0x1E62,"Lu",22},{0x1E63,"Ll",21},{0x1E64,"Lu",22},{0x1E65,"Ll",21},{0x1E66,"Lu",22},{0x1E67,"Ll",21},
{0x1E68,"Lu",22},{0x1E69,"Ll",21},{0x1E6A,"Lu",22},{0x1E6B,"Ll",21},{0x1E6C,"Lu",22},{0x1E6D,"Ll",21},{0x1E6E,"Lu",22},{0x1E6F,"Ll",21},
{0x1E70,"Lu",22},{0x1E71,"Ll",21},{0x1E72,"Lu",22},{0x1E73,"Ll",21},{0x1E74,"Lu",22},{0x1E75,"Ll",21},{0x1E76,"Lu",22},{0x1E77,"Ll",21},
{0x1E78,"Lu",22},{0x1E79,"Ll",21},{0x1E7A,"Lu",22},{0x1E7B,"Ll",21},{0x1E7C,"Lu",22},{0x1E7D,"Ll",21},{0x1E7E,"Lu",22},{0x1E7F,"Ll",21},
{0x1E80,"Lu",22},{0x1E81,"Ll",21},{0x1E82,"Lu",22},{0x1E83,"Ll",21},{0x1E84,"Lu",22},{0x1E85,"Ll",21},{0x1E86,"Lu",22},{0x1E87,"Ll",21},
{0x1E88,"Lu",22},{0x1E89,"Ll",21},{0x1E8A,"Lu",22},{0x1E8B,"Ll",21},{0x1E8C,"Lu",22},{0x1E8D,"Ll",21},{0x1E8E,"Lu",22},{0x1E8F,"Ll",21},
{0x1E90,"Lu",22},{0x1E91,"Ll",21},{0x1E92,"Lu",22},{0x1E93,"Ll",21},{0x1E94,"Lu",22},{0x1E95,"Ll",21},{0x1E9E,"Lu",22},{0x1E9F,"Ll",21},
{0x1EA0,"Lu",22},{0x1EA1,"Ll",21},{0x1EA2,"Lu",22},{0x1EA3,"Ll",21},{0x1EA4,"Lu",22},{0x1EA5,"Ll",21},{0x1EA6,"Lu",22},{0x1EA7,"Ll",21},
{0x1EA8,"Lu",22},{0x1EA9,"Ll",21},{0x1EAA,"Lu",22},{0x1EAB,"Ll",21},{0x1EAC,"Lu",22},{0x1EAD,"Ll",21},{0x1EAE,"Lu",22},{0x1EAF,"Ll",21},
{0x1EB0,"Lu",22},{0x1EB1,"Ll",21},{0x1EB2,"Lu",22},{0x1EB3,"Ll",21},{0x1EB4,"Lu",22},{0x1EB5,"Ll",21},{0x1EB6,"Lu",22},{0x1EB7,"Ll",21},
{0x1EB8,"Lu",22},{0x1EB9,"Ll",21},{0x1EBA,"Lu",22},{0x1EBB,"Ll",21},{0x1EBC,"Lu",22},{0x1EBD,"Ll",21},{0x1EBE,"Lu",22},{0x1EBF,"Ll",21},
{0x1EC0,"Lu",22},{0x1EC1,"Ll",21},{0x1EC2,"Lu",22},{0x1EC3,"Ll",21},{0x1EC4,"Lu",22},{0x1EC5,"Ll",21},{0x1EC6,"Lu",22},{0x1EC7,"Ll",21},
{0x1EC8,"Lu",22},{0x1EC9,"Ll",21},{0x1ECA,"Lu",22},{0x1ECB,"Ll",21},{0x1ECC,"Lu",22},{0x1ECD,"Ll",21},{0x1ECE,"Lu",22},{0x1ECF,"Ll",21},
{0x1ED0,"Lu",22},{0x1ED1,"Ll",21},{0x1ED2,"Lu",22},{0x1ED3,"Ll",21},{0x1ED4,"Lu",22},{0x1ED5,"Ll",21},{0x1ED6,"Lu",22},{0x1ED7,"Ll",21},
{0x1ED8,"Lu",22},{0x1ED9,"Ll",21},{0x1EDA,"Lu",22},{0x1EDB,"Ll",21},{0x1EDC,"Lu",22},{0x1EDD,"Ll",21},{0x1EDE,"Lu",22},{0x1EDF,"Ll",21},
{0x1EE0,"Lu",22},{0x1EE1,"Ll",21},{0x1EE2,"Lu",22},{0x1EE3,"Ll",21},{0x1EE4,"Lu",22},{0x1EE5,"Ll",21},{0x1EE6,"Lu",22},{0x1EE7,"Ll",21},
{0x1EE8,"Lu",22},{0x1EE9,"Ll",21},{0x1EEA,"Lu",22},{0x1EEB,"Ll",21},{0x1EEC,"Lu",22},{0x1EED,"Ll",21},{0x1EEE,"Lu",22},{0x1EEF,"Ll",21},
{0x1EF0,"Lu",22},{0x1EF1,"Ll",21},{0x1EF2,"Lu",22},{0x1EF3,"Ll",21},{0x1EF4,"Lu",22},{0x1EF5,"Ll",21},{0x1EF6,"Lu",22},{0x1EF7,"Ll",21},
{0x1EF8,"Lu",22},{0x1EF9,"Ll",21},{0x1EFA,"Lu",22},{0x1EFB,"Ll",21},{0x1EFC,"Lu",22},{0x1EFD,"Ll",21},{0x1EFE,"Lu",22},{0x1EFF,"Ll",21},
{0x1F08,"Lu",22},{0x1F10,"Ll",21},{0x1F16,"Cn",0},{0x1F18,"Lu",22},{0x1F1E,"Cn",0},{0x1F20,"Ll",21},{0x1F28,"Lu",22},{0x1F30,"Ll",21},
{0x1F38,"Lu",22},{0x1F40,"Ll",21},{0x1F46,"Cn",0},{0x1F48,"Lu",22},{0x1F4E,"Cn",0},{0x1F50,"Ll",21},{0x1F58,"Cn",0},{0x1F59,"Lu",22},
{0x1F5A,"Cn",0},{0x1F5B,"Lu",22},{0x1F5C,"Cn",0},{0x1F5D,"Lu",22},{0x1F5E,"Cn",0},{0x1F5F,"Lu",22},{0x1F60,"Ll",21},{0x1F68,"Lu",22},
{0x1F70,"Ll",21},{0x1F7E,"Cn",0},{0x1F80,"Ll",21},{0x1F88,"Lt",20},{0x1F90,"Ll",21},{0x1F98,"Lt",20},{0x1FA0,"Ll",21},{0x1FA8,"Lt",20},
{0x1FB0,"Ll",21},{0x1FB5,"Cn",0},{0x1FB6,"Ll",21},{0x1FB8,"Lu",22},{0x1FBC,"Lt",20},{0x1FBD,"Sk",16},{0x1FBE,"Ll",21},{0x1FBF,"Sk",16},
{0x1FC2,"Ll",21},{0x1FC5,"Cn",0},{0x1FC6,"Ll",21},{0x1FC8,"Lu",22},{0x1FCC,"Lt",20},{0x1FCD,"Sk",16},{0x1FD0,"Ll",21},{0x1FD4,"Cn",0},
{0x1FD6,"Ll",21},{0x1FD8,"Lu",22},{0x1FDC,"Cn",0},{0x1FDD,"Sk",16},{0x1FE0,"Ll",21},{0x1FE8,"Lu",22},{0x1FED,"Sk",16},{0x1FF0,"Cn",0},
{0x1FF2,"Ll",21},{0x1FF5,"Cn",0},{0x1FF6,"Ll",21},{0x1FF8,"Lu",22},{0x1FFC,"Lt",20},{0x1FFD,"Sk",16},{0x1FFF,"Cn",0},{0x2000,"Zs",16},
{0x200B,"Cf",16},{0x2010,"Pd",16},{0x2016,"Po",16},{0x2018,"Pi",16},{0x2019,"Pf",16},{0x201A,"Ps",16},{0x201B,"Pi",16},{0x201D,"Pf",16},
{0x201E,"Ps",16},{0x201F,"Pi",16},{0x2020,"Po",16},{0x2028,"Zl",16},{0x2029,"Zp",16},{0x202A,"Cf",16},{0x202F,"Zs",16},{0x2030,"Po",16},
{0x2039,"Pi",16},{0x203A,"Pf",16},{0x203B,"Po",16},{0x203F,"Pc",16},{0x2041,"Po",16},{0x2044,"Sm",16},{0x2045,"Ps",16},{0x2046,"Pe",16},
{0x2047,"Po",16},{0x2052,"Sm",16},{0x2053,"Po",16},{0x2054,"Pc",16},{0x2055,"Po",16},{0x205F,"Zs",16},{0x2060,"Cf",16},{0x2065,"Cn",0},
{0x2066,"Cf",16},{0x2070,"No",16},{0x2071,"Lm",21},{0x2072,"Cn",0},{0x2074,"No",16},{0x207A,"Sm",16},{0x207D,"Ps",16},{0x207E,"Pe",16},
{0x207F,"Lm",21},{0x2080,"No",16},{0x208A,"Sm",16},{0x208D,"Ps",16},{0x208E,"Pe",16},{0x208F,"Cn",0},{0x2090,"Lm",21},{0x209D,"Cn",0},
{0x20A0,"Sc",16},{0x20C0,"Sc",0},{0x20C1,"Cn",0},{0x20D0,"Mn",16},{0x20DD,"Me",16},{0x20E1,"Mn",16},{0x20E2,"Me",16},{0x20E5,"Mn",16},
{0x20F1,"Cn",0},{0x2100,"So",16},{0x2102,"Lu",22},{0x2103,"So",16},{0x2107,"Lu",22},{0x2108,"So",16},{0x210A,"Ll",21},{0x210B,"Lu",22},
{0x210E,"Ll",21},{0x2110,"Lu",22},{0x2113,"Ll",21},{0x2114,"So",16},{0x2115,"Lu",22},{0x2116,"So",16},{0x2118,"Sm",16},{0x2119,"Lu",22},
{0x211E,"So",16},{0x2124,"Lu",22},{0x2125,"So",16},{0x2126,"Lu",22},{0x2127,"So",16},{0x2128,"Lu",22},{0x2129,"So",16},{0x212A,"Lu",22},
{0x212E,"So",16},{0x212F,"Ll",21},{0x2130,"Lu",22},{0x2134,"Ll",21},{0x2135,"Lo",20},{0x2139,"Ll",21},{0x213A,"So",16},{0x213C,"Ll",21},
{0x213E,"Lu",22},{0x2140,"Sm",16},{0x2145,"Lu",22},{0x2146,"Ll",21},{0x214A,"So",16},{0x214B,"Sm",16},{0x214C,"So",16},{0x214E,"Ll",21},
{0x214F,"So",16},{0x2150,"No",16},{0x2160,"Nl",22},{0x2170,"Nl",21},{0x2180,"Nl",20},{0x2183,"Lu",22},{0x2184,"Ll",21},{0x2185,"Nl",20},
{0x2189,"No",16},{0x218A,"So",16},{0x218C,"Cn",0},{0x2190,"Sm",16},{0x2195,"So",16},{0x219A,"Sm",16},{0x219C,"So",16},{0x21A0,"Sm",16},
{0x21A1,"So",16},{0x21A3,"Sm",16},{0x21A4,"So",16},{0x21A6,"Sm",16},{0x21A7,"So",16},{0x21AE,"Sm",16},{0x21AF,"So",16},{0x21CE,"Sm",16},
{0x21D0,"So",16},{0x21D2,"Sm",16},{0x21D3,"So",16},{0x21D4,"Sm",16},{0x21D5,"So",16},{0x21F4,"Sm",16},{0x2300,"So",16},{0x2308,"Ps",16},
{0x2309,"Pe",16},{0x230A,"Ps",16},{0x230B,"Pe",16},{0x230C,"So",16},{0x2320,"Sm",16},{0x2322,"So",16},{0x2329,"Ps",16},{0x232A,"Pe",16},
{0x232B,"So",16},{0x237C,"Sm",16},{0x237D,"So",16},{0x239B,"Sm",16},{0x23B4,"So",16},{0x23DC,"Sm",16},{0x23E2,"So",16},{0x2427,"Cn",0},
{0x2440,"So",16},{0x244B,"Cn",0},{0x2460,"No",16},{0x249C,"So",16},{0x24B6,"So",22},{0x24D0,"So",21},{0x24EA,"No",16},{0x2500,"So",16},
{0x25B7,"Sm",16},{0x25B8,"So",16},{0x25C1,"Sm",16},{0x25C2,"So",16},{0x25F8,"Sm",16},{0x2600,"So",16},{0x266F,"Sm",16},{0x2670,"So",16},
{0x2768,"Ps",16},{0x2769,"Pe",16},{0x276A,"Ps",16},{0x276B,"Pe",16},{0x276C,"Ps",16},{0x276D,"Pe",16},{0x276E,"Ps",16},{0x276F,"Pe",16},
{0x2770,"Ps",16},{0x2771,"Pe",16},{0x2772,"Ps",16},{0x2773,"Pe",16},{0x2774,"Ps",16},{0x2775,"Pe",16},{0x2776,"No",16},{0x2794,"So",16},
{0x27C0,"Sm",16},{0x27C5,"Ps",16},{0x27C6,"Pe",16},{0x27C7,"Sm",16},{0x27E6,"Ps",16},{0x27E7,"Pe",16},{0x27E8,"Ps",16},{0x27E9,"Pe",16},
{0x27EA,"Ps",16},{0x27EB,"Pe",16},{0x27EC,"Ps",16},{0x27ED,"Pe",16},{0x27EE,"Ps",16},{0x27EF,"Pe",16},{0x27F0,"Sm",16},{0x2800,"So",16},
{0x2900,"Sm",16},{0x2983,"Ps",16},{0x2984,"Pe",16},{0x2985,"Ps",16},{0x2986,"Pe",16},{0x2987,"Ps",16},{0x2988,"Pe",16},{0x2989,"Ps",16},
{0x298A,"Pe",16},{0x298B,"Ps",16},{0x298C,"Pe",16},{0x298D,"Ps",16},{0x298E,"Pe",16},{0x298F,"Ps",16},{0x2990,"Pe",16},{0x2991,"Ps",16},
{0x2992,"Pe",16},{0x2993,"Ps",16},{0x2994,"Pe",16},{0x2995,"Ps",16},{0x2996,"Pe",16},{0x2997,"Ps",16},{0x2998,"Pe",16},{0x2999,"Sm",16},
{0x29D8,"Ps",16},{0x29D9,"Pe",16},{0x29DA,"Ps",16},{0x29DB,"Pe",16},{0x29DC,"Sm",16},{0x29FC,"Ps",16},{0x29FD,"Pe",16},{0x29FE,"Sm",16},
{0x2B00,"So",16},{0x2B30,"Sm",16},{0x2B45,"So",16},{0x2B47,"Sm",16},{0x2B4D,"So",16},{0x2B74,"Cn",0},{0x2B76,"So",16},{0x2B96,"Cn",0},
{0x2B97,"So",0},{0x2B98,"So",16},{0x2BBA,"So",0},{0x2BBD,"So",16},{0x2BC9,"So",0},{0x2BCA,"So",16},{0x2BD3,"So",0},{0x2BEC,"So",16},
{0x2BF0,"So",0},{0x2C00,"Lu",22},{0x2C2F,"Lu",6},{0x2C30,"Ll",21},{0x2C5F,"Ll",5},{0x2C60,"Lu",22},{0x2C61,"Ll",21},{0x2C62,"Lu",22},
{0x2C65,"Ll",21},{0x2C67,"Lu",22},{0x2C68,"Ll",21},{0x2C69,"Lu",22},{0x2C6A,"Ll",21},{0x2C6B,"Lu",22},{0x2C6C,"Ll",21},{0x2C6D,"Lu",22},
{0x2C71,"Ll",21},{0x2C72,"Lu",22},{0x2C73,"Ll",21},{0x2C75,"Lu",22},{0x2C76,"Ll",21},{0x2C7C,"Lm",21},{0x2C7E,"Lu",22},{0x2C81,"Ll",21},
{0x2C82,"Lu",22},{0x2C83,"Ll",21},{0x2C84,"Lu",22},{0x2C85,"Ll",21},{0x2C86,"Lu",22},{0x2C87,"Ll",21},{0x2C88,"Lu",22},{0x2C89,"Ll",21},
{0x2C8A,"Lu",22},{0x2C8B,"Ll",21},{0x2C8C,"Lu",22},{0x2C8D,"Ll",21},{0x2C8E,"Lu",22},{0x2C8F,"Ll",21},{0x2C90,"Lu",22},{0x2C91,"Ll",21},
{0x2C92,"Lu",22},{0x2C93,"Ll",21},{0x2C94,"Lu",22},{0x2C95,"Ll",21},{0x2C96,"Lu",22},{0x2C97,"Ll",21},{0x2C98,"Lu",22},{0x2C99,"Ll",21},
{0x2C9A,"Lu",22},{0x2C9B,"Ll",21},{0x2C9C,"Lu",22},{0x2C9D,"Ll",21},{0x2C9E,"Lu",22},{0x2C9F,"Ll",21},{0x2CA0,"Lu",22},{0x2CA1,"Ll",21},
{0x2CA2,"Lu",22},{0x2CA3,"Ll",21},{0x2CA4,"Lu",22},{0x2CA5,"Ll",21},{0x2CA6,"Lu",22},{0x2CA7,"Ll",21},{0x2CA8,"Lu",22},{0x2CA9,"Ll",21},
{0x2CAA,"Lu",22},{0x2CAB,"Ll",21},{0x2CAC,"Lu",22},{0x2CAD,"Ll",21},{0x2CAE,"Lu",22},{0x2CAF,"Ll",21},{0x2CB0,"Lu",22},{0x2CB1,"Ll",21},
{0x2CB2,"Lu",22},{0x2CB3,"Ll",21},{0x2CB4,"Lu",22},{0x2CB5,"Ll",21},{0x2CB6,"Lu",22},{0x2CB7,"Ll",21},{0x2CB8,"Lu",22},{0x2CB9,"Ll",21},
{0x2CBA,"Lu",22},{0x2CBB,"Ll",21},{0x2CBC,"Lu",22},{0x2CBD,"Ll",21},{0x2CBE,"Lu",22},{0x2CBF,"Ll",21},{0x2CC0,"Lu",22},{0x2CC1,"Ll",21},
{0x2CC2,"Lu",22},{0x2CC3,"Ll",21},{0x2CC4,"Lu",22},{0x2CC5,"Ll",21},{0x2CC6,"Lu",22},{0x2CC7,"Ll",21},{0x2CC8,"Lu",22},{0x2CC9,"Ll",21},
{0x2CCA,"Lu",22},{0x2CCB,"Ll",21},{0x2CCC,"Lu",22},{0x2CCD,"Ll",21},{0x2CCE,"Lu",22},{0x2CCF,"Ll",21},{0x2CD0,"Lu",22},{0x2CD1,"Ll",21},
{0x2CD2,"Lu",22},{0x2CD3,"Ll",21},{0x2CD4,"Lu",22},{0x2CD5,"Ll",21},{0x2CD6,"Lu",22},{0x2CD7,"Ll",21},{0x2CD8,"Lu",22},{0x2CD9,"Ll",21},
{0x2CDA,"Lu",22},{0x2CDB,"Ll",21},{0x2CDC,"Lu",22},{0x2CDD,"Ll",21},{0x2CDE,"Lu",22},{0x2CDF,"Ll",21},{0x2CE0,"Lu",22},{0x2CE1,"Ll",21},
{0x2CE2,"Lu",22},{0x2CE3,"Ll",21},{0x2CE5,"So",16},{0x2CEB,"Lu",22},{0x2CEC,"Ll",21},{0x2CED,"Lu",22},{0x2CEE,"Ll",21},{0x2CEF,"Mn",16},
{0x2CF2,"Lu",22},{0x2CF3,"Ll",21},{0x2CF4,"Cn",0},{0x2CF9,"Po",16},{0x2CFD,"No",16},{0x2CFE,"Po",16},{0x2D00,"Ll",21},{0x2D26,"Cn",0},
{0x2D27,"Ll",21},{0x2D28,"Cn",0},{0x2D2D,"Ll",21},{0x2D2E,"Cn",0},{0x2D30,"Lo",20},{0x2D68,"Cn",0},{0x2D6F,"Lm",20},{0x2D70,"Po",16},
{0x2D71,"Cn",0},{0x2D7F,"Mn",16},{0x2D80,"Lo",20},{0x2D97,"Cn",0},{0x2DA0,"Lo",20},{0x2DA7,"Cn",0},{0x2DA8,"Lo",20},{0x2DAF,"Cn",0},
{0x2DB0,"Lo",20},{0x2DB7,"Cn",0},{0x2DB8,"Lo",20},{0x2DBF,"Cn",0},{0x2DC0,"Lo",20},{0x2DC7,"Cn",0},{0x2DC8,"Lo",20},{0x2DCF,"Cn",0},
{0x2DD0,"Lo",20},{0x2DD7,"Cn",0},{0x2DD8,"Lo",20},{0x2DDF,"Cn",0},{0x2DE0,"Mn",20},{0x2E00,"Po",16},{0x2E02,"Pi",16},{0x2E03,"Pf",16},
{0x2E04,"Pi",16},{0x2E05,"Pf",16},{0x2E06,"Po",16},{0x2E09,"Pi",16},{0x2E0A,"Pf",16},{0x2E0B,"Po",16},{0x2E0C,"Pi",16},{0x2E0D,"Pf",16},
{0x2E0E,"Po",16},{0x2E17,"Pd",16},{0x2E18,"Po",16},{0x2E1A,"Pd",16},{0x2E1B,"Po",16},{0x2E1C,"Pi",16},{0x2E1D,"Pf",16},{0x2E1E,"Po",16},
{0x2E20,"Pi",16},{0x2E21,"Pf",16},{0x2E22,"Ps",16},{0x2E23,"Pe",16},{0x2E24,"Ps",16},{0x2E25,"Pe",16},{0x2E26,"Ps",16},{0x2E27,"Pe",16},
{0x2E28,"Ps",16},{0x2E29,"Pe",16},{0x2E2A,"Po",16},{0x2E2F,"Lm",20},{0x2E30,"Po",16},{0x2E3A,"Pd",16},{0x2E3C,"Po",16},{0x2E40,"Pd",16},
{0x2E41,"Po",16},{0x2E42,"Ps",16},{0x2E43,"Po",16},{0x2E4A,"Po",0},{0x2E50,"So",0},{0x2E52,"Po",0},{0x2E55,"Ps",0},{0x2E56,"Pe",0},
{0x2E57,"Ps",0},{0x2E58,"Pe",0},{0x2E59,"Ps",0},{0x2E5A,"Pe",0},{0x2E5B,"Ps",0},{0x2E5C,"Pe",0},{0x2E5D,"Pd",0},{0x2E5E,"Cn",0},
{0x2E80,"So",16},{0x2E9A,"Cn",0},{0x2E9B,"So",16},{0x2EF4,"Cn",0},{0x2F00,"So",16},{0x2FD6,"Cn",0},{0x2FF0,"So",16},{0x2FFC,"Cn",0},
{0x3000,"Zs",16},{0x3001,"Po",16},{0x3004,"So",16},{0x3005,"Lm",20},{0x3006,"Lo",20},{0x3007,"Nl",20},{0x3008,"Ps",16},{0x3009,"Pe",16},
{0x300A,"Ps",16},{0x300B,"Pe",16},{0x300C,"Ps",16},{0x300D,"Pe",16},{0x300E,"Ps",16},{0x300F,"Pe",16},{0x3010,"Ps",16},{0x3011,"Pe",16},
{0x3012,"So",16},{0x3014,"Ps",16},{0x3015,"Pe",16},{0x3016,"Ps",16},{0x3017,"Pe",16},{0x3018,"Ps",16},{0x3019,"Pe",16},{0x301A,"Ps",16},
{0x301B,"Pe",16},{0x301C,"Pd",16},{0x301D,"Ps",16},{0x301E,"Pe",16},{0x3020,"So",16},{0x3021,"Nl",20},{0x302A,"Mn",16},{0x302E,"Mc",16},
{0x3030,"Pd",16},{0x3031,"Lm",20},{0x3036,"So",16},{0x3038,"Nl",20},{0x303B,"Lm",20},{0x303C,"Lo",20},{0x303D,"Po",16},{0x303E,"So",16},
{0x3040,"Cn",0},{0x3041,"Lo",20},{0x3097,"Cn",0},{0x3099,"Mn",16},{0x309B,"Sk",16},{0x309D,"Lm",20},{0x309F,"Lo",20},{0x30A0,"Pd",16},
{0x30A1,"Lo",20},{0x30FB,"Po",16},{0x30FC,"Lm",20},{0x30FF,"Lo",20},{0x3100,"Cn",0},{0x3105,"Lo",20},{0x312F,"Lo",4},{0x3130,"Cn",0},
{0x3131,"Lo",20},{0x318F,"Cn",0},{0x3190,"So",16},{0x3192,"No",16},{0x3196,"So",16},{0x31A0,"Lo",20},{0x31BB,"Lo",4},{0x31C0,"So",16},
{0x31E4,"Cn",0},{0x31F0,"Lo",20},{0x3200,"So",16},{0x321F,"Cn",0},{0x3220,"No",16},{0x322A,"So",16},{0x3248,"No",16},{0x3250,"So",16},
{0x3251,"No",16},{0x3260,"So",16},{0x3280,"No",16},{0x328A,"So",16},{0x32B1,"No",16},{0x32C0,"So",16},{0x32FF,"So",0},{0x3300,"So",16},
{0x3400,"Lo",28},{0x4DB6,"Lo",12},{0x4DC0,"So",16},{0x4E00,"Lo",28},{0x9FEB,"Lo",12},{0xA000,"Lo",20},{0xA015,"Lm",20},{0xA016,"Lo",20},
{0xA48D,"Cn",0},{0xA490,"So",16},{0xA4C7,"Cn",0},{0xA4D0,"Lo",20},{0xA4F8,"Lm",20},{0xA4FE,"Po",16},{0xA500,"Lo",20},{0xA60C,"Lm",20},
{0xA60D,"Po",16},{0xA610,"Lo",20},{0xA620,"Nd",16},{0xA62A,"Lo",20},{0xA62C,"Cn",0},{0xA640,"Lu",22},{0xA641,"Ll",21},{0xA642,"Lu",22},
{0xA643,"Ll",21},{0xA644,"Lu",22},{0xA645,"Ll",21},{0xA646,"Lu",22},{0xA647,"Ll",21},{0xA648,"Lu",22},{0xA649,"Ll",21},{0xA64A,"Lu",22},
{0xA64B,"Ll",21},{0xA64C,"Lu",22},{0xA64D,"Ll",21},{0xA64E,"Lu",22},{0xA64F,"Ll",21},{0xA650,"Lu",22},{0xA651,"Ll",21},{0xA652,"Lu",22},
{0xA653,"Ll",21},{0xA654,"Lu",22},{0xA655,"Ll",21},{0xA656,"Lu",22},{0xA657,"Ll",21},{0xA658,"Lu",22},{0xA659,"Ll",21},{0xA65A,"Lu",22},
{0xA65B,"Ll",21},{0xA65C,"Lu",22},{0xA65D,"Ll",21},{0xA65E,"Lu",22},{0xA65F,"Ll",21},{0xA660,"Lu",22},{0xA661,"Ll",21},{0xA662,"Lu",22},
{0xA663,"Ll",21},{0xA664,"Lu",22},{0xA665,"Ll",21},{0xA666,"Lu",22},{0xA667,"Ll",21},{0xA668,"Lu",22},{0xA669,"Ll",21},{0xA66A,"Lu",22},
{0xA66B,"Ll",21},{0xA66C,"Lu",22},{0xA66D,"Ll",21},{0xA66E,"Lo",20},{0xA66F,"Mn",16},{0xA670,"Me",16},{0xA673,"Po",16},{0xA674,"Mn",20},
{0xA67C,"Mn",16},{0xA67E,"Po",16},{0xA67F,"Lm",20},{0xA680,"Lu",22},{0xA681,"Ll",21},{0xA682,"Lu",22},{0xA683,"Ll",21},{0xA684,"Lu",22},
{0xA685,"Ll",21},{0xA686,"Lu",22},{0xA687,"Ll",21},{0xA688,"Lu",22},{0xA689,"Ll",21},{0xA68A,"Lu",22},{0xA68B,"Ll",21},{0xA68C,"Lu",22},
{0xA68D,"Ll",21},{0xA68E,"Lu",22},{0xA68F,"Ll",21},{0xA690,"Lu",22},{0xA691,"Ll",21},{0xA692,"Lu",22},{0xA693,"Ll",21},{0xA694,"Lu",22},
{0xA695,"Ll",21},{0xA696,"Lu",22},{0xA697,"Ll",21},{0xA698,"Lu",22},{0xA699,"Ll",21},{0xA69A,"Lu",22},{0xA69B,"Ll",21},{0xA69C,"Lm",21},
{0xA69E,"Mn",20},{0xA6A0,"Lo",20},{0xA6E6,"Nl",20},{0xA6F0,"Mn",16},{0xA6F2,"Po",16},{0xA6F8,"Cn",0},{0xA700,"Sk",16},{0xA717,"Lm",20},
{0xA720,"Sk",16},{0xA722,"Lu",22},{0xA723,"Ll",21},{0xA724,"Lu",22},{0xA725,"Ll",21},{0xA726,"Lu",22},{0xA727,"Ll",21},{0xA728,"Lu",22},
{0xA729,"Ll",21},{0xA72A,"Lu",22},{0xA72B,"Ll",21},{0xA72C,"Lu",22},{0xA72D,"Ll",21},{0xA72E,"Lu",22},{0xA72F,"Ll",21},{0xA732,"Lu",22},
{0xA733,"Ll",21},{0xA734,"Lu",22},{0xA735,"Ll",21},{0xA736,"Lu",22},{0xA737,"Ll",21},{0xA738,"Lu",22},{0xA739,"Ll",21},{0xA73A,"Lu",22},
{0xA73B,"Ll",21},{0xA73C,"Lu",22},{0xA73D,"Ll",21},{0xA73E,"Lu",22},{0xA73F,"Ll",21},{0xA740,"Lu",22},{0xA741,"Ll",21},{0xA742,"Lu",22},
{0xA743,"Ll",21},{0xA744,"Lu",22},{0xA745,"Ll",21},{0xA746,"Lu",22},{0xA747,"Ll",21},{0xA748,"Lu",22},{0xA749,"Ll",21},{0xA74A,"Lu",22},
{0xA74B,"Ll",21},{0xA74C,"Lu",22},{0xA74D,"Ll",21},{0xA74E,"Lu",22},{0xA74F,"Ll",21},{0xA750,"Lu",22},{0xA751,"Ll",21},{0xA752,"Lu",22},
{0xA753,"Ll",21},{0xA754,"Lu",22},{0xA755,"Ll",21},{0xA756,"Lu",22},{0xA757,"Ll",21},{0xA758,"Lu",22},{0xA759,"Ll",21},{0xA75A,"Lu",22},
{0xA75B,"Ll",21},{0xA75C,"Lu",22},{0xA75D,"Ll",21},{0xA75E,"Lu",22},{0xA75F,"Ll",21},{0xA760,"Lu",22},{0xA761,"Ll",21},{0xA762,"Lu",22},
{0xA763,"Ll",21},{0xA764,"Lu",22},{0xA765,"Ll",21},{0xA766,"Lu",22},{0xA767,"Ll",21},{0xA768,"Lu",22},{0xA769,"Ll",21},{0xA76A,"Lu",22},
{0xA76B,"Ll",21},{0xA76C,"Lu",22},{0xA76D,"Ll",21},{0xA76E,"Lu",22},{0xA76F,"Ll",21},{0xA770,"Lm",21},{0xA771,"Ll",21},{0xA779,"Lu",22},
{0xA77A,"Ll",21},{0xA77B,"Lu",22},{0xA77C,"Ll",21},{0xA77D,"Lu",22},{0xA77F,"Ll",21},{0xA780,"Lu",22},{0xA781,"Ll",21},{0xA782,"Lu",22},
{0xA783,"Ll",21},{0xA784,"Lu",22},{0xA785,"Ll",21},{0xA786,"Lu",22},{0xA787,"Ll",21},{0xA788,"Lm",20},{0xA789,"Sk",16},{0xA78B,"Lu",22},
{0xA78C,"Ll",21},{0xA78D,"Lu",22},{0xA78E,"Ll",21},{0xA78F,"Lo",20},{0xA790,"Lu",22},{0xA791,"Ll",21},{0xA792,"Lu",22},{0xA793,"Ll",21},
{0xA796,"Lu",22},{0xA797,"Ll",21},{0xA798,"Lu",22},{0xA799,"Ll",21},{0xA79A,"Lu",22},{0xA79B,"Ll",21},{0xA79C,"Lu",22},{0xA79D,"Ll",21},
{0xA79E,"Lu",22},{0xA79F,"Ll",21},{0xA7A0,"Lu",22},{0xA7A1,"Ll",21},{0xA7A2,"Lu",22},{0xA7A3,"Ll",21},{0xA7A4,"Lu",22},{0xA7A5,"Ll",21},
{0xA7A6,"Lu",22},{0xA7A7,"Ll",21},{0xA7A8,"Lu",22},{0xA7A9,"Ll",21},{0xA7AA,"Lu",22},{0xA7AF,"Ll",5},{0xA7B0,"Lu",22},{0xA7B5,"Ll",21},
{0xA7B6,"Lu",22},{0xA7B7,"Ll",21},{0xA7B8,"Lu",6},{0xA7B9,"Ll",5},{0xA7BA,"Lu",6},{0xA7BB,"Ll",5},{0xA7BC,"Lu",6},{0xA7BD,"Ll",5},
{0xA7BE,"Lu",6},{0xA7BF,"Ll",5},{0xA7C0,"Lu",6},{0xA7C1,"Ll",5},{0xA7C2,"Lu",6},{0xA7C3,"Ll",5},{0xA7C4,"Lu",6},{0xA7C8,"Ll",5},
{0xA7C9,"Lu",6},{0xA7CA,"Ll",5},{0xA7CB,"Cn",0},{0xA7D0,"Lu",6},{0xA7D1,"Ll",5},{0xA7D2,"Cn",0},{0xA7D3,"Ll",5},{0xA7D4,"Cn",0},
{0xA7D5,"Ll",5},{0xA7D6,"Lu",6},{0xA7D7,"Ll",5},{0xA7D8,"Lu",6},{0xA7D9,"Ll",5},{0xA7DA,"Cn",0},{0xA7F2,"Lm",5},{0xA7F5,"Lu",6},
{0xA7F6,"Ll",5},{0xA7F7,"Lo",20},{0xA7F8,"Lm",21},{0xA7FA,"Ll",21},{0xA7FB,"Lo",20},{0xA802,"Mn",20},{0xA803,"Lo",20},{0xA806,"Mn",16},
{0xA807,"Lo",20},{0xA80B,"Mn",20},{0xA80C,"Lo",20},{0xA823,"Mc",20},{0xA825,"Mn",20},{0xA827,"Mc",20},{0xA828,"So",16},{0xA82C,"Mn",0},
{0xA82D,"Cn",0},{0xA830,"No",16},{0xA836,"So",16},{0xA838,"Sc",16},{0xA839,"So",16},{0xA83A,"Cn",0},{0xA840,"Lo",20},{0xA874,"Po",16},
{0xA878,"Cn",0},{0xA880,"Mc",20},{0xA882,"Lo",20},{0xA8B4,"Mc",20},{0xA8C4,"Mn",16},{0xA8C5,"Mn",20},{0xA8C6,"Cn",0},{0xA8CE,"Po",16},
{0xA8D0,"Nd",16},{0xA8DA,"Cn",0},{0xA8E0,"Mn",16},{0xA8F2,"Lo",20},{0xA8F8,"Po",16},{0xA8FB,"Lo",20},{0xA8FC,"Po",16},{0xA8FD,"Lo",20},
{0xA8FE,"Lo",4},{0xA8FF,"Mn",4},{0xA900,"Nd",16},{0xA90A,"Lo",20},{0xA926,"Mn",20},{0xA92B,"Mn",16},{0xA92E,"Po",16},{0xA930,"Lo",20},
{0xA947,"Mn",20},{0xA952,"Mc",20},{0xA953,"Mc",16},{0xA954,"Cn",0},{0xA95F,"Po",16},{0xA960,"Lo",20},{0xA97D,"Cn",0},{0xA980,"Mn",20},
{0xA983,"Mc",20},{0xA984,"Lo",20},{0xA9B3,"Mn",16},{0xA9B4,"Mc",20},{0xA9B6,"Mn",20},{0xA9BA,"Mc",20},{0xA9BC,"Mn",20},{0xA9BE,"Mc",20},
{0xA9C0,"Mc",16},{0xA9C1,"Po",16},{0xA9CE,"Cn",0},{0xA9CF,"Lm",20},{0xA9D0,"Nd",16},{0xA9DA,"Cn",0},{0xA9DE,"Po",16},{0xA9E0,"Lo",20},
{0xA9E5,"Mn",20},{0xA9E6,"Lm",20},{0xA9E7,"Lo",20},{0xA9F0,"Nd",16},{0xA9FA,"Lo",20},{0xA9FF,"Cn",0},{0xAA00,"Lo",20},{0xAA29,"Mn",20},
{0xAA2F,"Mc",20},{0xAA31,"Mn",20},{0xAA33,"Mc",20},{0xAA35,"Mn",20},{0xAA37,"Cn",0},{0xAA40,"Lo",20},{0xAA43,"Mn",20},{0xAA44,"Lo",20},
{0xAA4C,"Mn",20},{0xAA4D,"Mc",20},{0xAA4E,"Cn",0},{0xAA50,"Nd",16},{0xAA5A,"Cn",0},{0xAA5C,"Po",16},{0xAA60,"Lo",20},{0xAA70,"Lm",20},
{0xAA71,"Lo",20},{0xAA77,"So",16},{0xAA7A,"Lo",20},{0xAA7B,"Mc",20},{0xAA7C,"Mn",20},{0xAA7D,"Mc",20},{0xAA7E,"Lo",20},{0xAAB0,"Mn",20},
{0xAAB1,"Lo",20},{0xAAB2,"Mn",20},{0xAAB5,"Lo",20},{0xAAB7,"Mn",20},{0xAAB9,"Lo",20},{0xAABE,"Mn",20},{0xAABF,"Mn",16},{0xAAC0,"Lo",20},
{0xAAC1,"Mn",16},{0xAAC2,"Lo",20},{0xAAC3,"Cn",0},{0xAADB,"Lo",20},{0xAADD,"Lm",20},{0xAADE,"Po",16},{0xAAE0,"Lo",20},{0xAAEB,"Mc",20},
{0xAAEC,"Mn",20},{0xAAEE,"Mc",20},{0xAAF0,"Po",16},{0xAAF2,"Lo",20},{0xAAF3,"Lm",20},{0xAAF5,"Mc",20},{0xAAF6,"Mn",16},{0xAAF7,"Cn",0},
{0xAB01,"Lo",20},{0xAB07,"Cn",0},{0xAB09,"Lo",20},{0xAB0F,"Cn",0},{0xAB11,"Lo",20},{0xAB17,"Cn",0},{0xAB20,"Lo",20},{0xAB27,"Cn",0},
{0xAB28,"Lo",20},{0xAB2F,"Cn",0},{0xAB30,"Ll",21},{0xAB5B,"Sk",16},{0xAB5C,"Lm",21},{0xAB60,"Ll",21},{0xAB66,"Ll",5},{0xAB69,"Lm",5},
{0xAB6A,"Sk",0},{0xAB6C,"Cn",0},{0xAB70,"Ll",21},{0xABC0,"Lo",20},{0xABE3,"Mc",20},{0xABE5,"Mn",20},{0xABE6,"Mc",20},{0xABE8,"Mn",20},
{0xABE9,"Mc",20},{0xABEB,"Po",16},{0xABEC,"Mc",16},{0xABED,"Mn",16},{0xABEE,"Cn",0},{0xABF0,"Nd",16},{0xABFA,"Cn",0},{0xAC00,"Lo",20},
{0xD7A4,"Cn",0},{0xD7B0,"Lo",20},{0xD7C7,"Cn",0},{0xD7CB,"Lo",20},{0xD7FC,"Cn",0},{0xD800,"Cs",16},{0xE000,"Co",16},{0xF900,"Lo",20},
{0xFA0E,"Lo",28},{0xFA10,"Lo",20},{0xFA11,"Lo",28},{0xFA12,"Lo",20},{0xFA13,"Lo",28},{0xFA15,"Lo",20},{0xFA1F,"Lo",28},{0xFA20,"Lo",20},
{0xFA21,"Lo",28},{0xFA22,"Lo",20},{0xFA23,"Lo",28},{0xFA25,"Lo",20},{0xFA27,"Lo",28},{0xFA2A,"Lo",20},{0xFA6E,"Cn",0},{0xFA70,"Lo",20},
{0xFADA,"Cn",0},{0xFB00,"Ll",21},{0xFB07,"Cn",0},{0xFB13,"Ll",21},{0xFB18,"Cn",0},{0xFB1D,"Lo",20},{0xFB1E,"Mn",20},{0xFB1F,"Lo",20},
{0xFB29,"Sm",16},{0xFB2A,"Lo",20},{0xFB37,"Cn",0},{0xFB38,"Lo",20},{0xFB3D,"Cn",0},{0xFB3E,"Lo",20},{0xFB3F,"Cn",0},{0xFB40,"Lo",20},
{0xFB42,"Cn",0},{0xFB43,"Lo",20},{0xFB45,"Cn",0},{0xFB46,"Lo",20},{0xFBB2,"Sk",16},{0xFBC2,"Sk",0},{0xFBC3,"Cn",0},{0xFBD3,"Lo",20},
{0xFD3E,"Pe",16},{0xFD3F,"Ps",16},{0xFD40,"So",0},{0xFD50,"Lo",20},{0xFD90,"Cn",0},{0xFD92,"Lo",20},{0xFDC8,"Cn",0},{0xFDCF,"So",0},
{0xFDD0,"Cn",16},{0xFDF0,"Lo",20},{0xFDFC,"Sc",16},{0xFDFD,"So",16},{0xFDFE,"So",0},{0xFE00,"Mn",16},{0xFE10,"Po",16},{0xFE17,"Ps",16},
{0xFE18,"Pe",16},{0xFE19,"Po",16},{0xFE1A,"Cn",0},{0xFE20,"Mn",16},{0xFE30,"Po",16},{0xFE31,"Pd",16},{0xFE33,"Pc",16},{0xFE35,"Ps",16},
{0xFE36,"Pe",16},{0xFE37,"Ps",16},{0xFE38,"Pe",16},{0xFE39,"Ps",16},{0xFE3A,"Pe",16},{0xFE3B,"Ps",16},{0xFE3C,"Pe",16},{0xFE3D,"Ps",16},
{0xFE3E,"Pe",16},{0xFE3F,"Ps",16},{0xFE40,"Pe",16},{0xFE41,"Ps",16},{0xFE42,"Pe",16},{0xFE43,"Ps",16},{0xFE44,"Pe",16},{0xFE45,"Po",16},
{0xFE47,"Ps",16},{0xFE48,"Pe",16},{0xFE49,"Po",16},{0xFE4D,"Pc",16},{0xFE50,"Po",16},{0xFE53,"Cn",0},{0xFE54,"Po",16},{0xFE58,"Pd",16},
{0xFE59,"Ps",16},{0xFE5A,"Pe",16},{0xFE5B,"Ps",16},{0xFE5C,"Pe",16},{0xFE5D,"Ps",16},{0xFE5E,"Pe",16},{0xFE5F,"Po",16},{0xFE62,"Sm",16},
{0xFE63,"Pd",16},{0xFE64,"Sm",16},{0xFE67,"Cn",0},{0xFE68,"Po",16},{0xFE69,"Sc",16},{0xFE6A,"Po",16},{0xFE6C,"Cn",0},{0xFE70,"Lo",20},
{0xFE75,"Cn",0},{0xFE76,"Lo",20},{0xFEFD,"Cn",0},{0xFEFF,"Cf",16},{0xFF00,"Cn",0},{0xFF01,"Po",16},{0xFF04,"Sc",16},{0xFF05,"Po",16},
{0xFF08,"Ps",16},{0xFF09,"Pe",16},{0xFF0A,"Po",16},{0xFF0B,"Sm",16},{0xFF0C,"Po",16},{0xFF0D,"Pd",16},{0xFF0E,"Po",16},{0xFF10,"Nd",16},
{0xFF1A,"Po",16},{0xFF1C,"Sm",16},{0xFF1F,"Po",16},{0xFF21,"Lu",22},{0xFF3B,"Ps",16},{0xFF3C,"Po",16},{0xFF3D,"Pe",16},{0xFF3E,"Sk",16},
{0xFF3F,"Pc",16},{0xFF40,"Sk",16},{0xFF41,"Ll",21},{0xFF5B,"Ps",16},{0xFF5C,"Sm",16},{0xFF5D,"Pe",16},{0xFF5E,"Sm",16},{0xFF5F,"Ps",16},
{0xFF60,"Pe",16},{0xFF61,"Po",16},{0xFF62,"Ps",16},{0xFF63,"Pe",16},{0xFF64,"Po",16},{0xFF66,"Lo",20},{0xFF70,"Lm",20},{0xFF71,"Lo",20},
{0xFF9E,"Lm",20},{0xFFA0,"Lo",20},{0xFFBF,"Cn",0},{0xFFC2,"Lo",20},{0xFFC8,"Cn",0},{0xFFCA,"Lo",20},{0xFFD0,"Cn",0},{0xFFD2,"Lo",20},
{0xFFD8,"Cn",0},{0xFFDA,"Lo",20},{0xFFDD,"Cn",0},{0xFFE0,"Sc",16},{0xFFE2,"Sm",16},{0xFFE3,"Sk",16},{0xFFE4,"So",16},{0xFFE5,"Sc",16},
{0xFFE7,"Cn",0},{0xFFE8,"So",16},{0xFFE9,"Sm",16},{0xFFED,"So",16},{0xFFEF,"Cn",0},{0xFFF9,"Cf",16},{0xFFFC,"So",16},{0xFFFE,"Cn",16},
{0x10000,"Lo",20},{0x1000C,"Cn",0},{0x1000D,"Lo",20},{0x10027,"Cn",0},{0x10028,"Lo",20},{0x1003B,"Cn",0},{0x1003C,"Lo",20},{0x1003E,"Cn",0},
{0x1003F,"Lo",20},{0x1004E,"Cn",0},{0x10050,"Lo",20},{0x1005E,"Cn",0},{0x10080,"Lo",20},{0x100FB,"Cn",0},{0x10100,"Po",16},{0x10103,"Cn",0},
{0x10107,"No",16},{0x10134,"Cn",0},{0x10137,"So",16},{0x10140,"Nl",20},{0x10175,"No",16},{0x10179,"So",16},{0x1018A,"No",16},{0x1018C,"So",16},
{0x1018F,"Cn",0},{0x10190,"So",16},{0x1019C,"So",0},{0x1019D,"Cn",0},{0x101A0,"So",16},{0x101A1,"Cn",0},{0x101D0,"So",16},{0x101FD,"Mn",16},
{0x101FE,"Cn",0},{0x10280,"Lo",20},{0x1029D,"Cn",0},{0x102A0,"Lo",20},{0x102D1,"Cn",0},{0x102E0,"Mn",16},{0x102E1,"No",16},{0x102FC,"Cn",0},
{0x10300,"Lo",20},{0x10320,"No",16},{0x10324,"Cn",0},{0x1032D,"Lo",20},{0x10341,"Nl",20},{0x10342,"Lo",20},{0x1034A,"Nl",20},{0x1034B,"Cn",0},
{0x10350,"Lo",20},{0x10376,"Mn",20},{0x1037B,"Cn",0},{0x10380,"Lo",20},{0x1039E,"Cn",0},{0x1039F,"Po",16},{0x103A0,"Lo",20},{0x103C4,"Cn",0},
{0x103C8,"Lo",20},{0x103D0,"Po",16},{0x103D1,"Nl",20},{0x103D6,"Cn",0},{0x10400,"Lu",22},{0x10428,"Ll",21},{0x10450,"Lo",20},{0x1049E,"Cn",0},
{0x104A0,"Nd",16},{0x104AA,"Cn",0},{0x104B0,"Lu",22},{0x104D4,"Cn",0},{0x104D8,"Ll",21},{0x104FC,"Cn",0},{0x10500,"Lo",20},{0x10528,"Cn",0},
{0x10530,"Lo",20},{0x10564,"Cn",0},{0x1056F,"Po",16},{0x10570,"Lu",6},{0x1057B,"Cn",0},{0x1057C,"Lu",6},{0x1058B,"Cn",0},{0x1058C,"Lu",6},
{0x10593,"Cn",0},{0x10594,"Lu",6},{0x10596,"Cn",0},{0x10597,"Ll",5},{0x105A2,"Cn",0},{0x105A3,"Ll",5},{0x105B2,"Cn",0},{0x105B3,"Ll",5},
{0x105BA,"Cn",0},{0x105BB,"Ll",5},{0x105BD,"Cn",0},{0x10600,"Lo",20},{0x10737,"Cn",0},{0x10740,"Lo",20},{0x10756,"Cn",0},{0x10760,"Lo",20},
{0x10768,"Cn",0},{0x10780,"Lm",5},{0x10781,"Lm",4},{0x10783,"Lm",5},{0x10786,"Cn",0},{0x10787,"Lm",5},{0x107B1,"Cn",0},{0x107B2,"Lm",5},
{0x107BB,"Cn",0},{0x10800,"Lo",20},{0x10806,"Cn",0},{0x10808,"Lo",20},{0x10809,"Cn",0},{0x1080A,"Lo",20},{0x10836,"Cn",0},{0x10837,"Lo",20},
{0x10839,"Cn",0},{0x1083C,"Lo",20},{0x1083D,"Cn",0},{0x1083F,"Lo",20},{0x10856,"Cn",0},{0x10857,"Po",16},{0x10858,"No",16},{0x10860,"Lo",20},
{0x10877,"So",16},{0x10879,"No",16},{0x10880,"Lo",20},{0x1089F,"Cn",0},{0x108A7,"No",16},{0x108B0,"Cn",0},{0x108E0,"Lo",20},{0x108F3,"Cn",0},
{0x108F4,"Lo",20},{0x108F6,"Cn",0},{0x108FB,"No",16},{0x10900,"Lo",20},{0x10916,"No",16},{0x1091C,"Cn",0},{0x1091F,"Po",16},{0x10920,"Lo",20},
{0x1093A,"Cn",0},{0x1093F,"Po",16},{0x10940,"Cn",0},{0x10980,"Lo",20},{0x109B8,"Cn",0},{0x109BC,"No",16},{0x109BE,"Lo",20},{0x109C0,"No",16},
{0x109D0,"Cn",0},{0x109D2,"No",16},{0x10A00,"Lo",20},{0x10A01,"Mn",20},{0x10A04,"Cn",0},{0x10A05,"Mn",20},{0x10A07,"Cn",0},{0x10A0C,"Mn",20},
{0x10A10,"Lo",20},{0x10A14,"Cn",0},{0x10A15,"Lo",20},{0x10A18,"Cn",0},{0x10A19,"Lo",20},{0x10A34,"Lo",4},{0x10A36,"Cn",0},{0x10A38,"Mn",16},
{0x10A3B,"Cn",0},{0x10A3F,"Mn",16},{0x10A40,"No",16},{0x10A48,"No",0},{0x10A49,"Cn",0},{0x10A50,"Po",16},{0x10A59,"Cn",0},{0x10A60,"Lo",20},
{0x10A7D,"No",16},{0x10A7F,"Po",16},{0x10A80,"Lo",20},{0x10A9D,"No",16},{0x10AA0,"Cn",0},{0x10AC0,"Lo",20},{0x10AC8,"So",16},{0x10AC9,"Lo",20},
{0x10AE5,"Mn",16},{0x10AE7,"Cn",0},{0x10AEB,"No",16},{0x10AF0,"Po",16},{0x10AF7,"Cn",0},{0x10B00,"Lo",20},{0x10B36,"Cn",0},{0x10B39,"Po",16},
{0x10B40,"Lo",20},{0x10B56,"Cn",0},{0x10B58,"No",16},{0x10B60,"Lo",20},{0x10B73,"Cn",0},{0x10B78,"No",16},{0x10B80,"Lo",20},{0x10B92,"Cn",0},
{0x10B99,"Po",16},{0x10B9D,"Cn",0},{0x10BA9,"No",16},{0x10BB0,"Cn",0},{0x10C00,"Lo",20},{0x10C49,"Cn",0},{0x10C80,"Lu",22},{0x10CB3,"Cn",0},
{0x10CC0,"Ll",21},{0x10CF3,"Cn",0},{0x10CFA,"No",16},{0x10D00,"Lo",4},{0x10D24,"Mn",4},{0x10D28,"Cn",0},{0x10D30,"Nd",0},{0x10D3A,"Cn",0},
{0x10E60,"No",16},{0x10E7F,"Cn",0},{0x10E80,"Lo",4},{0x10EAA,"Cn",0},{0x10EAB,"Mn",4},{0x10EAD,"Pd",0},{0x10EAE,"Cn",0},{0x10EB0,"Lo",4},
{0x10EB2,"Cn",0},{0x10EFD,"Mn",0},{0x10F00,"Lo",4},{0x10F1D,"No",0},{0x10F27,"Lo",4},{0x10F28,"Cn",0},{0x10F30,"Lo",4},{0x10F46,"Mn",0},
{0x10F51,"No",0},{0x10F55,"Po",0},{0x10F5A,"Cn",0},{0x10F70,"Lo",4},{0x10F82,"Mn",0},{0x10F86,"Po",0},{0x10F8A,"Cn",0},{0x10FB0,"Lo",4},
{0x10FC5,"No",0},{0x10FCC,"Cn",0},{0x10FE0,"Lo",4},{0x10FF7,"Cn",0},{0x11000,"Mc",20},{0x11001,"Mn",20},{0x11002,"Mc",20},{0x11003,"Lo",20},
{0x11038,"Mn",20},{0x11046,"Mn",16},{0x11047,"Po",16},{0x1104E,"Cn",0},{0x11052,"No",16},{0x11066,"Nd",16},{0x11070,"Mn",0},{0x11071,"Lo",4},
{0x11073,"Mn",4},{0x11075,"Lo",4},{0x11076,"Cn",0},{0x1107F,"Mn",16},{0x11080,"Mn",20},{0x11082,"Mc",20},{0x11083,"Lo",20},{0x110B0,"Mc",20},
{0x110B3,"Mn",20},{0x110B7,"Mc",20},{0x110B9,"Mn",16},{0x110BB,"Po",16},{0x110BD,"Cf",16},{0x110BE,"Po",16},{0x110C2,"Mn",4},{0x110C3,"Cn",0},
{0x110CD,"Cf",0},{0x110CE,"Cn",0},{0x110D0,"Lo",20},{0x110E9,"Cn",0},{0x110F0,"Nd",16},{0x110FA,"Cn",0},{0x11100,"Mn",20},{0x11103,"Lo",20},
{0x11127,"Mn",20},{0x1112C,"Mc",20},{0x1112D,"Mn",20},{0x11133,"Mn",16},{0x11135,"Cn",0},{0x11136,"Nd",16},{0x11140,"Po",16},{0x11144,"Lo",4},
{0x11145,"Mc",4},{0x11147,"Lo",4},{0x11148,"Cn",0},{0x11150,"Lo",20},{0x11173,"Mn",16},{0x11174,"Po",16},{0x11176,"Lo",20},{0x11177,"Cn",0},
{0x11180,"Mn",20},{0x11182,"Mc",20},{0x11183,"Lo",20},{0x111B3,"Mc",20},{0x111B6,"Mn",20},{0x111BF,"Mc",20},{0x111C0,"Mc",16},{0x111C1,"Lo",20},
{0x111C5,"Po",16},{0x111C9,"Mn",16},{0x111CD,"Po",16},{0x111CE,"Mc",4},{0x111CF,"Mn",4},{0x111D0,"Nd",16},{0x111DA,"Lo",20},{0x111DB,"Po",16},
{0x111DC,"Lo",20},{0x111DD,"Po",16},{0x111E0,"Cn",0},{0x111E1,"No",16},{0x111F5,"Cn",0},{0x11200,"Lo",20},{0x11212,"Cn",0},{0x11213,"Lo",20},
{0x1122C,"Mc",20},{0x1122F,"Mn",20},{0x11232,"Mc",20},{0x11234,"Mn",20},{0x11235,"Mc",16},{0x11236,"Mn",16},{0x11237,"Mn",20},{0x11238,"Po",16},
{0x1123E,"Mn",20},{0x1123F,"Lo",4},{0x11241,"Mn",4},{0x11242,"Cn",0},{0x11280,"Lo",20},{0x11287,"Cn",0},{0x11288,"Lo",20},{0x11289,"Cn",0},
{0x1128A,"Lo",20},{0x1128E,"Cn",0},{0x1128F,"Lo",20},{0x1129E,"Cn",0},{0x1129F,"Lo",20},{0x112A9,"Po",16},{0x112AA,"Cn",0},{0x112B0,"Lo",20},
{0x112DF,"Mn",20},{0x112E0,"Mc",20},{0x112E3,"Mn",20},{0x112E9,"Mn",16},{0x112EB,"Cn",0},{0x112F0,"Nd",16},{0x112FA,"Cn",0},{0x11300,"Mn",20},
{0x11302,"Mc",20},{0x11304,"Cn",0},{0x11305,"Lo",20},{0x1130D,"Cn",0},{0x1130F,"Lo",20},{0x11311,"Cn",0},{0x11313,"Lo",20},{0x11329,"Cn",0},
{0x1132A,"Lo",20},{0x11331,"Cn",0},{0x11332,"Lo",20},{0x11334,"Cn",0},{0x11335,"Lo",20},{0x1133A,"Cn",0},{0x1133B,"Mn",0},{0x1133C,"Mn",16},
{0x1133D,"Lo",20},{0x1133E,"Mc",20},{0x11340,"Mn",20},{0x11341,"Mc",20},{0x11345,"Cn",0},{0x11347,"Mc",20},{0x11349,"Cn",0},{0x1134B,"Mc",20},
{0x1134D,"Mc",16},{0x1134E,"Cn",0},{0x11350,"Lo",20},{0x11351,"Cn",0},{0x11357,"Mc",20},{0x11358,"Cn",0},{0x1135D,"Lo",20},{0x11362,"Mc",20},
{0x11364,"Cn",0},{0x11366,"Mn",16},{0x1136D,"Cn",0},{0x11370,"Mn",16},{0x11375,"Cn",0},{0x11400,"Lo",20},{0x11435,"Mc",20},{0x11438,"Mn",20},
{0x11440,"Mc",20},{0x11442,"Mn",16},{0x11443,"Mn",20},{0x11445,"Mc",20},{0x11446,"Mn",16},{0x11447,"Lo",20},{0x1144B,"Po",16},{0x11450,"Nd",16},
{0x1145A,"Po",0},{0x1145B,"Po",16},{0x1145C,"Cn",0},{0x1145D,"Po",16},{0x1145E,"Mn",0},{0x1145F,"Lo",4},{0x11462,"Cn",0},{0x11480,"Lo",20},
{0x114B0,"Mc",20},{0x114B3,"Mn",20},{0x114B9,"Mc",20},{0x114BA,"Mn",20},{0x114BB,"Mc",20},{0x114BF,"Mn",20},{0x114C1,"Mc",20},{0x114C2,"Mn",16},
{0x114C4,"Lo",20},{0x114C6,"Po",16},{0x114C7,"Lo",20},{0x114C8,"Cn",0},{0x114D0,"Nd",16},{0x114DA,"Cn",0},{0x11580,"Lo",20},{0x115AF,"Mc",20},
{0x115B2,"Mn",20},{0x115B6,"Cn",0},{0x115B8,"Mc",20},{0x115BC,"Mn",20},{0x115BE,"Mc",20},{0x115BF,"Mn",16},{0x115C1,"Po",16},{0x115D8,"Lo",20},
{0x115DC,"Mn",20},{0x115DE,"Cn",0},{0x11600,"Lo",20},{0x11630,"Mc",20},{0x11633,"Mn",20},{0x1163B,"Mc",20},{0x1163D,"Mn",20},{0x1163E,"Mc",20},
{0x1163F,"Mn",16},{0x11640,"Mn",20},{0x11641,"Po",16},{0x11644,"Lo",20},{0x11645,"Cn",0},{0x11650,"Nd",16},{0x1165A,"Cn",0},{0x11660,"Po",16},
{0x1166D,"Cn",0},{0x11680,"Lo",20},{0x116AB,"Mn",20},{0x116AC,"Mc",20},{0x116AD,"Mn",20},{0x116AE,"Mc",20},{0x116B0,"Mn",20},{0x116B6,"Mc",16},
{0x116B7,"Mn",16},{0x116B8,"Lo",4},{0x116B9,"Po",0},{0x116BA,"Cn",0},{0x116C0,"Nd",16},{0x116CA,"Cn",0},{0x11700,"Lo",20},{0x1171A,"Lo",4},
{0x1171B,"Cn",0},{0x1171D,"Mn",20},{0x11720,"Mc",20},{0x11722,"Mn",20},{0x11726,"Mc",20},{0x11727,"Mn",20},{0x1172B,"Mn",16},{0x1172C,"Cn",0},
{0x11730,"Nd",16},{0x1173A,"No",16},{0x1173C,"Po",16},{0x1173F,"So",16},{0x11740,"Lo",4},{0x11747,"Cn",0},{0x11800,"Lo",4},{0x1182C,"Mc",4},
{0x1182F,"Mn",4},{0x11838,"Mc",4},{0x11839,"Mn",0},{0x1183B,"Po",0},{0x1183C,"Cn",0},{0x118A0,"Lu",22},{0x118C0,"Ll",21},{0x118E0,"Nd",16},
{0x118EA,"No",16},{0x118F3,"Cn",0},{0x118FF,"Lo",20},{0x11900,"Lo",4},{0x11907,"Cn",0},{0x11909,"Lo",4},{0x1190A,"Cn",0},{0x1190C,"Lo",4},
{0x11914,"Cn",0},{0x11915,"Lo",4},{0x11917,"Cn",0},{0x11918,"Lo",4},{0x11930,"Mc",4},{0x11936,"Cn",0},{0x11937,"Mc",4},{0x11939,"Cn",0},
{0x1193B,"Mn",4},{0x1193D,"Mc",0},{0x1193E,"Mn",0},{0x1193F,"Lo",4},{0x11940,"Mc",4},{0x11941,"Lo",4},{0x11942,"Mc",4},{0x11943,"Mn",0},
{0x11944,"Po",0},{0x11947,"Cn",0},{0x11950,"Nd",0},{0x1195A,"Cn",0},{0x119A0,"Lo",4},{0x119A8,"Cn",0},{0x119AA,"Lo",4},{0x119D1,"Mc",4},
{0x119D4,"Mn",4},{0x119D8,"Cn",0},{0x119DA,"Mn",4},{0x119DC,"Mc",4},{0x119E0,"Mn",0},{0x119E1,"Lo",4},{0x119E2,"Po",0},{0x119E3,"Lo",4},
{0x119E4,"Mc",4},{0x119E5,"Cn",0},{0x11A00,"Lo",20},{0x11A01,"Mn",20},{0x11A0B,"Lo",20},{0x11A33,"Mn",16},{0x11A35,"Mn",20},{0x11A39,"Mc",20},
{0x11A3A,"Lo",20},{0x11A3B,"Mn",20},{0x11A3F,"Po",16},{0x11A47,"Mn",16},{0x11A48,"Cn",0},{0x11A50,"Lo",20},{0x11A51,"Mn",20},{0x11A57,"Mc",20},
{0x11A59,"Mn",20},{0x11A5C,"Lo",20},{0x11A84,"Lo",4},{0x11A86,"Lo",20},{0x11A8A,"Mn",20},{0x11A97,"Mc",20},{0x11A98,"Mn",16},{0x11A9A,"Po",16},
{0x11A9D,"Lo",4},{0x11A9E,"Po",16},{0x11AA3,"Cn",0},{0x11AB0,"Lo",4},{0x11AC0,"Lo",20},{0x11AF9,"Cn",0},{0x11B00,"Po",0},{0x11B0A,"Cn",0},
{0x11C00,"Lo",20},{0x11C09,"Cn",0},{0x11C0A,"Lo",20},{0x11C2F,"Mc",20},{0x11C30,"Mn",20},{0x11C37,"Cn",0},{0x11C38,"Mn",20},{0x11C3E,"Mc",20},
{0x11C3F,"Mn",16},{0x11C40,"Lo",20},{0x11C41,"Po",16},{0x11C46,"Cn",0},{0x11C50,"Nd",16},{0x11C5A,"No",16},{0x11C6D,"Cn",0},{0x11C70,"Po",16},
{0x11C72,"Lo",20},{0x11C90,"Cn",0},{0x11C92,"Mn",20},{0x11CA8,"Cn",0},{0x11CA9,"Mc",20},{0x11CAA,"Mn",20},{0x11CB1,"Mc",20},{0x11CB2,"Mn",20},
{0x11CB4,"Mc",20},{0x11CB5,"Mn",20},{0x11CB7,"Cn",0},{0x11D00,"Lo",20},{0x11D07,"Cn",0},{0x11D08,"Lo",20},{0x11D0A,"Cn",0},{0x11D0B,"Lo",20},
{0x11D31,"Mn",20},{0x11D37,"Cn",0},{0x11D3A,"Mn",20},{0x11D3B,"Cn",0},{0x11D3C,"Mn",20},{0x11D3E,"Cn",0},{0x11D3F,"Mn",20},{0x11D42,"Mn",16},
{0x11D43,"Mn",20},{0x11D44,"Mn",16},{0x11D46,"Lo",20},{0x11D47,"Mn",20},{0x11D48,"Cn",0},{0x11D50,"Nd",16},{0x11D5A,"Cn",0},{0x11D60,"Lo",4},
{0x11D66,"Cn",0},{0x11D67,"Lo",4},{0x11D69,"Cn",0},{0x11D6A,"Lo",4},{0x11D8A,"Mc",4},{0x11D8F,"Cn",0},{0x11D90,"Mn",4},{0x11D92,"Cn",0},
{0x11D93,"Mc",4},{0x11D95,"Mn",4},{0x11D96,"Mc",4},{0x11D97,"Mn",0},{0x11D98,"Lo",4},{0x11D99,"Cn",0},{0x11DA0,"Nd",0},{0x11DAA,"Cn",0},
{0x11EE0,"Lo",4},{0x11EF3,"Mn",4},{0x11EF5,"Mc",4},{0x11EF7,"Po",0},{0x11EF9,"Cn",0},{0x11F00,"Mn",4},{0x11F02,"Lo",4},{0x11F03,"Mc",4},
{0x11F04,"Lo",4},{0x11F11,"Cn",0},{0x11F12,"Lo",4},{0x11F34,"Mc",4},{0x11F36,"Mn",4},{0x11F3B,"Cn",0},{0x11F3E,"Mc",4},{0x11F40,"Mn",4},
{0x11F41,"Mc",0},{0x11F42,"Mn",0},{0x11F43,"Po",0},{0x11F50,"Nd",0},{0x11F5A,"Cn",0},{0x11FB0,"Lo",4},{0x11FB1,"Cn",0},{0x11FC0,"No",0},
{0x11FD5,"So",0},{0x11FDD,"Sc",0},{0x11FE1,"So",0},{0x11FF2,"Cn",0},{0x11FFF,"Po",0},{0x12000,"Lo",20},{0x1239A,"Cn",0},{0x12400,"Nl",20},
{0x1246F,"Cn",0},{0x12470,"Po",16},{0x12475,"Cn",0},{0x12480,"Lo",20},{0x12544,"Cn",0},{0x12F90,"Lo",4},{0x12FF1,"Po",0},{0x12FF3,"Cn",0},
{0x13000,"Lo",20},{0x1342F,"Lo",4},{0x13430,"Cf",0},{0x13440,"Mn",0},{0x13441,"Lo",4},{0x13447,"Mn",0},{0x13456,"Cn",0},{0x14400,"Lo",20},
{0x14647,"Cn",0},{0x16800,"Lo",20},{0x16A39,"Cn",0},{0x16A40,"Lo",20},{0x16A5F,"Cn",0},{0x16A60,"Nd",16},{0x16A6A,"Cn",0},{0x16A6E,"Po",16},
{0x16A70,"Lo",4},{0x16ABF,"Cn",0},{0x16AC0,"Nd",0},{0x16ACA,"Cn",0},{0x16AD0,"Lo",20},{0x16AEE,"Cn",0},{0x16AF0,"Mn",16},{0x16AF5,"Po",16},
{0x16AF6,"Cn",0},{0x16B00,"Lo",20},{0x16B30,"Mn",16},{0x16B37,"Po",16},{0x16B3C,"So",16},{0x16B40,"Lm",20},{0x16B44,"Po",16},{0x16B45,"So",16},
{0x16B46,"Cn",0},{0x16B50,"Nd",16},{0x16B5A,"Cn",0},{0x16B5B,"No",16},{0x16B62,"Cn",0},{0x16B63,"Lo",20},{0x16B78,"Cn",0},{0x16B7D,"Lo",20},
{0x16B90,"Cn",0},{0x16E40,"Lu",6},{0x16E60,"Ll",5},{0x16E80,"No",0},{0x16E97,"Po",0},{0x16E9B,"Cn",0},{0x16F00,"Lo",20},{0x16F45,"Lo",4},
{0x16F4B,"Cn",0},{0x16F4F,"Mn",4},{0x16F50,"Lo",20},{0x16F51,"Mc",20},{0x16F7F,"Mc",4},{0x16F88,"Cn",0},{0x16F8F,"Mn",20},{0x16F93,"Lm",20},
{0x16FA0,"Cn",0},{0x16FE0,"Lm",20},{0x16FE2,"Po",0},{0x16FE3,"Lm",4},{0x16FE4,"Mn",0},{0x16FE5,"Cn",0},{0x16FF0,"Mc",4},{0x16FF2,"Cn",0},
{0x17000,"Lo",20},{0x187ED,"Lo",4},{0x187F8,"Cn",0},{0x18800,"Lo",20},{0x18AF3,"Lo",4},{0x18CD6,"Cn",0},{0x18D00,"Lo",4},{0x18D09,"Cn",0},
{0x1AFF0,"Lm",4},{0x1AFF4,"Cn",0},{0x1AFF5,"Lm",4},{0x1AFFC,"Cn",0},{0x1AFFD,"Lm",4},{0x1AFFF,"Cn",0},{0x1B000,"Lo",20},{0x1B11F,"Lo",4},
{0x1B123,"Cn",0},{0x1B132,"Lo",4},{0x1B133,"Cn",0},{0x1B150,"Lo",4},{0x1B153,"Cn",0},{0x1B155,"Lo",4},{0x1B156,"Cn",0},{0x1B164,"Lo",4},
{0x1B168,"Cn",0},{0x1B170,"Lo",20},{0x1B2FC,"Cn",0},{0x1BC00,"Lo",20},{0x1BC6B,"Cn",0},{0x1BC70,"Lo",20},{0x1BC7D,"Cn",0},{0x1BC80,"Lo",20},
{0x1BC89,"Cn",0},{0x1BC90,"Lo",20},{0x1BC9A,"Cn",0},{0x1BC9C,"So",16},{0x1BC9D,"Mn",16},{0x1BC9E,"Mn",20},{0x1BC9F,"Po",16},{0x1BCA0,"Cf",16},
{0x1BCA4,"Cn",0},{0x1CF00,"Mn",0},{0x1CF2E,"Cn",0},{0x1CF30,"Mn",0},{0x1CF47,"Cn",0},{0x1CF50,"So",0},{0x1CFC4,"Cn",0},{0x1D000,"So",16},
{0x1D0F6,"Cn",0},{0x1D100,"So",16},{0x1D127,"Cn",0},{0x1D129,"So",16},{0x1D165,"Mc",16},{0x1D167,"Mn",16},{0x1D16A,"So",16},{0x1D16D,"Mc",16},
{0x1D173,"Cf",16},{0x1D17B,"Mn",16},{0x1D183,"So",16},{0x1D185,"Mn",16},{0x1D18C,"So",16},{0x1D1AA,"Mn",16},{0x1D1AE,"So",16},{0x1D1E9,"So",0},
{0x1D1EB,"Cn",0},{0x1D200,"So",16},{0x1D242,"Mn",16},{0x1D245,"So",16},{0x1D246,"Cn",0},{0x1D2C0,"No",0},{0x1D2D4,"Cn",0},{0x1D2E0,"No",0},
{0x1D2F4,"Cn",0},{0x1D300,"So",16},{0x1D357,"Cn",0},{0x1D360,"No",16},{0x1D372,"No",0},{0x1D379,"Cn",0},{0x1D400,"Lu",22},{0x1D41A,"Ll",21},
{0x1D434,"Lu",22},{0x1D44E,"Ll",21},{0x1D455,"Cn",0},{0x1D456,"Ll",21},{0x1D468,"Lu",22},{0x1D482,"Ll",21},{0x1D49C,"Lu",22},{0x1D49D,"Cn",0},
{0x1D49E,"Lu",22},{0x1D4A0,"Cn",0},{0x1D4A2,"Lu",22},{0x1D4A3,"Cn",0},{0x1D4A5,"Lu",22},{0x1D4A7,"Cn",0},{0x1D4A9,"Lu",22},{0x1D4AD,"Cn",0},
{0x1D4AE,"Lu",22},{0x1D4B6,"Ll",21},{0x1D4BA,"Cn",0},{0x1D4BB,"Ll",21},{0x1D4BC,"Cn",0},{0x1D4BD,"Ll",21},{0x1D4C4,"Cn",0},{0x1D4C5,"Ll",21},
{0x1D4D0,"Lu",22},{0x1D4EA,"Ll",21},{0x1D504,"Lu",22},{0x1D506,"Cn",0},{0x1D507,"Lu",22},{0x1D50B,"Cn",0},{0x1D50D,"Lu",22},{0x1D515,"Cn",0},
{0x1D516,"Lu",22},{0x1D51D,"Cn",0},{0x1D51E,"Ll",21},{0x1D538,"Lu",22},{0x1D53A,"Cn",0},{0x1D53B,"Lu",22},{0x1D53F,"Cn",0},{0x1D540,"Lu",22},
{0x1D545,"Cn",0},{0x1D546,"Lu",22},{0x1D547,"Cn",0},{0x1D54A,"Lu",22},{0x1D551,"Cn",0},{0x1D552,"Ll",21},{0x1D56C,"Lu",22},{0x1D586,"Ll",21},
{0x1D5A0,"Lu",22},{0x1D5BA,"Ll",21},{0x1D5D4,"Lu",22},{0x1D5EE,"Ll",21},{0x1D608,"Lu",22},{0x1D622,"Ll",21},{0x1D63C,"Lu",22},{0x1D656,"Ll",21},
{0x1D670,"Lu",22},{0x1D68A,"Ll",21},{0x1D6A6,"Cn",0},{0x1D6A8,"Lu",22},{0x1D6C1,"Sm",16},{0x1D6C2,"Ll",21},{0x1D6DB,"Sm",16},{0x1D6DC,"Ll",21},
{0x1D6E2,"Lu",22},{0x1D6FB,"Sm",16},{0x1D6FC,"Ll",21},{0x1D715,"Sm",16},{0x1D716,"Ll",21},{0x1D71C,"Lu",22},{0x1D735,"Sm",16},{0x1D736,"Ll",21},
{0x1D74F,"Sm",16},{0x1D750,"Ll",21},{0x1D756,"Lu",22},{0x1D76F,"Sm",16},{0x1D770,"Ll",21},{0x1D789,"Sm",16},{0x1D78A,"Ll",21},{0x1D790,"Lu",22},
{0x1D7A9,"Sm",16},{0x1D7AA,"Ll",21},{0x1D7C3,"Sm",16},{0x1D7C4,"Ll",21},{0x1D7CA,"Lu",22},{0x1D7CB,"Ll",21},{0x1D7CC,"Cn",0},{0x1D7CE,"Nd",16},
{0x1D800,"So",16},{0x1DA00,"Mn",16},{0x1DA37,"So",16},{0x1DA3B,"Mn",16},{0x1DA6D,"So",16},{0x1DA75,"Mn",16},{0x1DA76,"So",16},{0x1DA84,"Mn",16},
{0x1DA85,"So",16},{0x1DA87,"Po",16},{0x1DA8C,"Cn",0},{0x1DA9B,"Mn",16},{0x1DAA0,"Cn",0},{0x1DAA1,"Mn",16},{0x1DAB0,"Cn",0},{0x1DF00,"Ll",5},
{0x1DF0A,"Lo",4},{0x1DF0B,"Ll",5},{0x1DF1F,"Cn",0},{0x1DF25,"Ll",5},{0x1DF2B,"Cn",0},{0x1E000,"Mn",20},{0x1E007,"Cn",0},{0x1E008,"Mn",20},
{0x1E019,"Cn",0},{0x1E01B,"Mn",20},{0x1E022,"Cn",0},{0x1E023,"Mn",20},{0x1E025,"Cn",0},{0x1E026,"Mn",20},{0x1E02B,"Cn",0},{0x1E030,"Lm",5},
{0x1E06E,"Cn",0},{0x1E08F,"Mn",4},{0x1E090,"Cn",0},{0x1E100,"Lo",4},{0x1E12D,"Cn",0},{0x1E130,"Mn",0},{0x1E137,"Lm",4},{0x1E13E,"Cn",0},
{0x1E140,"Nd",0},{0x1E14A,"Cn",0},{0x1E14E,"Lo",4},{0x1E14F,"So",0},{0x1E150,"Cn",0},{0x1E290,"Lo",4},{0x1E2AE,"Mn",0},{0x1E2AF,"Cn",0},
{0x1E2C0,"Lo",4},{0x1E2EC,"Mn",0},{0x1E2F0,"Nd",0},{0x1E2FA,"Cn",0},{0x1E2FF,"Sc",0},{0x1E300,"Cn",0},{0x1E4D0,"Lo",4},{0x1E4EB,"Lm",4},
{0x1E4EC,"Mn",0},{0x1E4F0,"Nd",0},{0x1E4FA,"Cn",0},{0x1E7E0,"Lo",4},{0x1E7E7,"Cn",0},{0x1E7E8,"Lo",4},{0x1E7EC,"Cn",0},{0x1E7ED,"Lo",4},
{0x1E7EF,"Cn",0},{0x1E7F0,"Lo",4},{0x1E7FF,"Cn",0},{0x1E800,"Lo",20},{0x1E8C5,"Cn",0},{0x1E8C7,"No",16},{0x1E8D0,"Mn",16},{0x1E8D7,"Cn",0},
{0x1E900,"Lu",22},{0x1E922,"Ll",21},{0x1E944,"Mn",16},{0x1E947,"Mn",20},{0x1E948,"Mn",16},{0x1E94B,"Lm",4},{0x1E94C,"Cn",0},{0x1E950,"Nd",16},
{0x1E95A,"Cn",0},{0x1E95E,"Po",16},{0x1E960,"Cn",0},{0x1EC71,"No",0},{0x1ECAC,"So",0},{0x1ECAD,"No",0},{0x1ECB0,"Sc",0},{0x1ECB1,"No",0},
{0x1ECB5,"Cn",0},{0x1ED01,"No",0},{0x1ED2E,"So",0},{0x1ED2F,"No",0},{0x1ED3E,"Cn",0},{0x1EE00,"Lo",20},{0x1EE04,"Cn",0},{0x1EE05,"Lo",20},
{0x1EE20,"Cn",0},{0x1EE21,"Lo",20},{0x1EE23,"Cn",0},{0x1EE24,"Lo",20},{0x1EE25,"Cn",0},{0x1EE27,"Lo",20},{0x1EE28,"Cn",0},{0x1EE29,"Lo",20},
{0x1EE33,"Cn",0},{0x1EE34,"Lo",20},{0x1EE38,"Cn",0},{0x1EE39,"Lo",20},{0x1EE3A,"Cn",0},{0x1EE3B,"Lo",20},{0x1EE3C,"Cn",0},{0x1EE42,"Lo",20},
{0x1EE43,"Cn",0},{0x1EE47,"Lo",20},{0x1EE48,"Cn",0},{0x1EE49,"Lo",20},{0x1EE4A,"Cn",0},{0x1EE4B,"Lo",20},{0x1EE4C,"Cn",0},{0x1EE4D,"Lo",20},
{0x1EE50,"Cn",0},{0x1EE51,"Lo",20},{0x1EE53,"Cn",0},{0x1EE54,"Lo",20},{0x1EE55,"Cn",0},{0x1EE57,"Lo",20},{0x1EE58,"Cn",0},{0x1EE59,"Lo",20},
{0x1EE5A,"Cn",0},{0x1EE5B,"Lo",20},{0x1EE5C,"Cn",0},{0x1EE5D,"Lo",20},{0x1EE5E,"Cn",0},{0x1EE5F,"Lo",20},{0x1EE60,"Cn",0},{0x1EE61,"Lo",20},
{0x1EE63,"Cn",0},{0x1EE64,"Lo",20},{0x1EE65,"Cn",0},{0x1EE67,"Lo",20},{0x1EE6B,"Cn",0},{0x1EE6C,"Lo",20},{0x1EE73,"Cn",0},{0x1EE74,"Lo",20},
{0x1EE78,"Cn",0},{0x1EE79,"Lo",20},{0x1EE7D,"Cn",0},{0x1EE7E,"Lo",20},{0x1EE7F,"Cn",0},{0x1EE80,"Lo",20},{0x1EE8A,"Cn",0},{0x1EE8B,"Lo",20},
{0x1EE9C,"Cn",0},{0x1EEA1,"Lo",20},{0x1EEA4,"Cn",0},{0x1EEA5,"Lo",20},{0x1EEAA,"Cn",0},{0x1EEAB,"Lo",20},{0x1EEBC,"Cn",0},{0x1EEF0,"Sm",16},
{0x1EEF2,"Cn",0},{0x1F000,"So",16},{0x1F02C,"Cn",0},{0x1F030,"So",16},{0x1F094,"Cn",0},{0x1F0A0,"So",16},{0x1F0AF,"Cn",0},{0x1F0B1,"So",16},
{0x1F0C0,"Cn",0},{0x1F0C1,"So",16},{0x1F0D0,"Cn",0},{0x1F0D1,"So",16},{0x1F0F6,"Cn",0},{0x1F100,"No",16},{0x1F10D,"So",0},{0x1F110,"So",16},
{0x1F12F,"So",0},{0x1F130,"So",22},{0x1F14A,"So",16},{0x1F150,"So",22},{0x1F16A,"So",16},{0x1F16C,"So",0},{0x1F170,"So",22},{0x1F18A,"So",16},
{0x1F1AD,"So",0},{0x1F1AE,"Cn",0},{0x1F1E6,"So",16},{0x1F203,"Cn",0},{0x1F210,"So",16},{0x1F23C,"Cn",0},{0x1F240,"So",16},{0x1F249,"Cn",0},
{0x1F250,"So",16},{0x1F252,"Cn",0},{0x1F260,"So",16},{0x1F266,"Cn",0},{0x1F300,"So",16},{0x1F3FB,"Sk",16},{0x1F400,"So",16},{0x1F6D5,"So",0},
{0x1F6D8,"Cn",0},{0x1F6DC,"So",0},{0x1F6E0,"So",16},{0x1F6ED,"Cn",0},{0x1F6F0,"So",16},{0x1F6F9,"So",0},{0x1F6FD,"Cn",0},{0x1F700,"So",16},
{0x1F774,"So",0},{0x1F777,"Cn",0},{0x1F77B,"So",0},{0x1F780,"So",16},{0x1F7D5,"So",0},{0x1F7DA,"Cn",0},{0x1F7E0,"So",0},{0x1F7EC,"Cn",0},
{0x1F7F0,"So",0},{0x1F7F1,"Cn",0},{0x1F800,"So",16},{0x1F80C,"Cn",0},{0x1F810,"So",16},{0x1F848,"Cn",0},{0x1F850,"So",16},{0x1F85A,"Cn",0},
{0x1F860,"So",16},{0x1F888,"Cn",0},{0x1F890,"So",16},{0x1F8AE,"Cn",0},{0x1F8B0,"So",0},{0x1F8B2,"Cn",0},{0x1F900,"So",16},{0x1F90C,"So",0},
{0x1F910,"So",16},{0x1F93F,"So",0},{0x1F940,"So",16},{0x1F94D,"So",0},{0x1F950,"So",16},{0x1F96C,"So",0},{0x1F980,"So",16},{0x1F998,"So",0},
{0x1F9C0,"So",16},{0x1F9C1,"So",0},{0x1F9D0,"So",16},{0x1F9E7,"So",0},{0x1FA54,"Cn",0},{0x1FA60,"So",0},{0x1FA6E,"Cn",0},{0x1FA70,"So",0},
{0x1FA7D,"Cn",0},{0x1FA80,"So",0},{0x1FA89,"Cn",0},{0x1FA90,"So",0},{0x1FABE,"Cn",0},{0x1FABF,"So",0},{0x1FAC6,"Cn",0},{0x1FACE,"So",0},
{0x1FADC,"Cn",0},{0x1FAE0,"So",0},{0x1FAE9,"Cn",0},{0x1FAF0,"So",0},{0x1FAF9,"Cn",0},{0x1FB00,"So",0},{0x1FB93,"Cn",0},{0x1FB94,"So",0},
{0x1FBCB,"Cn",0},{0x1FBF0,"Nd",0},{0x1FBFA,"Cn",0},{0x1FFFE,"Cn",16},{0x20000,"Lo",28},{0x2A6D7,"Lo",12},{0x2A6E0,"Cn",0},{0x2A700,"Lo",28},
{0x2B735,"Lo",12},{0x2B73A,"Cn",0},{0x2B740,"Lo",28},{0x2B81E,"Cn",0},{0x2B820,"Lo",28},{0x2CEA2,"Cn",0},{0x2CEB0,"Lo",28},{0x2EBE1,"Cn",0},
{0x2F800,"Lo",20},{0x2FA1E,"Cn",0},{0x2FFFE,"Cn",16},{0x30000,"Lo",12},{0x3134B,"Cn",0},{0x31350,"Lo",12},{0x323B0,"Cn",0},{0x3FFFE,"Cn",16},
{0x40000,"Cn",0},{0x4FFFE,"Cn",16},{0x50000,"Cn",0},{0x5FFFE,"Cn",16},{0x60000,"Cn",0},{0x6FFFE,"Cn",16},{0x70000,"Cn",0},{0x7FFFE,"Cn",16},
{0x80000,"Cn",0},{0x8FFFE,"Cn",16},{0x90000,"Cn",0},{0x9FFFE,"Cn",16},{0xA0000,"Cn",0},{0xAFFFE,"Cn",16},{0xB0000,"Cn",0},{0xBFFFE,"Cn",16},
{0xC0000,"Cn",0},{0xCFFFE,"Cn",16},{0xD0000,"Cn",0},{0xDFFFE,"Cn",16},{0xE0000,"Cn",0},{0xE0001,"Cf",16},{0xE0002,"Cn",0},{0xE0020,"Cf",16},
{0xE0080,"Cn",0},{0xE0100,"Mn",16},{0xE01F0,"Cn",0},{0xEFFFE,"Cn",16},{0xF0000,"Co",16},{0xFFFFE,"Cn",16},{0x100000,"Co",16},{0x10FFFE,"Cn",16},

};
static const uint32_t uni_upper[][2] = {
{0x61,0x41},{0x62,0x42},{0x63,0x43},{0x64,0x44},{0x65,0x45},{0x66,0x46},{0x67,0x47},{0x68,0x48},{0x69,0x49},{0x6A,0x4A},
{0x6B,0x4B},{0x6C,0x4C},{0x6D,0x4D},{0x6E,0x4E},{0x6F,0x4F},{0x70,0x50},{0x71,0x51},{0x72,0x52},{0x73,0x53},{0x74,0x54},
{0x75,0x55},{0x76,0x56},{0x77,0x57},{0x78,0x58},{0x79,0x59},{0x7A,0x5A},{0xB5,0x39C},{0xE0,0xC0},{0xE1,0xC1},{0xE2,0xC2},
{0xE3,0xC3},{0xE4,0xC4},{0xE5,0xC5},{0xE6,0xC6},{0xE7,0xC7},{0xE8,0xC8},{0xE9,0xC9},{0xEA,0xCA},{0xEB,0xCB},{0xEC,0xCC},
{0xED,0xCD},{0xEE,0xCE},{0xEF,0xCF},{0xF0,0xD0},{0xF1,0xD1},{0xF2,0xD2},{0xF3,0xD3},{0xF4,0xD4},{0xF5,0xD5},{0xF6,0xD6},
{0xF8,0xD8},{0xF9,0xD9},{0xFA,0xDA},{0xFB,0xDB},{0xFC,0xDC},{0xFD,0xDD},{0xFE,0xDE},{0xFF,0x178},{0x101,0x100},{0x103,0x102},
{0x105,0x104},{0x107,0x106},{0x109,0x108},{0x10B,0x10A},{0x10D,0x10C},{0x10F,0x10E},{0x111,0x110},{0x113,0x112},{0x115,0x114},{0x117,0x116},
{0x119,0x118},{0x11B,0x11A},{0x11D,0x11C},{0x11F,0x11E},{0x121,0x120},{0x123,0x122},{0x125,0x124},{0x127,0x126},{0x129,0x128},{0x12B,0x12A},
{0x12D,0x12C},{0x12F,0x12E},{0x131,0x49},{0x133,0x132},{0x135,0x134},{0x137,0x136},{0x13A,0x139},{0x13C,0x13B},{0x13E,0x13D},{0x140,0x13F},
{0x142,0x141},{0x144,0x143},{0x146,0x145},{0x148,0x147},{0x14B,0x14A},{0x14D,0x14C},{0x14F,0x14E},{0x151,0x150},{0x153,0x152},{0x155,0x154},
{0x157,0x156},{0x159,0x158},{0x15B,0x15A},{0x15D,0x15C},{0x15F,0x15E},{0x161,0x160},{0x163,0x162},{0x165,0x164},{0x167,0x166},{0x169,0x168},
{0x16B,0x16A},{0x16D,0x16C},{0x16F,0x16E},{0x171,0x170},{0x173,0x172},{0x175,0x174},{0x177,0x176},{0x17A,0x179},{0x17C,0x17B},{0x17E,0x17D},
{0x17F,0x53},{0x180,0x243},{0x183,0x182},{0x185,0x184},{0x188,0x187},{0x18C,0x18B},{0x192,0x191},{0x195,0x1F6},{0x199,0x198},{0x19A,0x23D},
{0x19E,0x220},{0x1A1,0x1A0},{0x1A3,0x1A2},{0x1A5,0x1A4},{0x1A8,0x1A7},{0x1AD,0x1AC},{0x1B0,0x1AF},{0x1B4,0x1B3},{0x1B6,0x1B5},{0x1B9,0x1B8},
{0x1BD,0x1BC},{0x1BF,0x1F7},{0x1C5,0x1C4},{0x1C6,0x1C4},{0x1C8,0x1C7},{0x1C9,0x1C7},{0x1CB,0x1CA},{0x1CC,0x1CA},{0x1CE,0x1CD},{0x1D0,0x1CF},
{0x1D2,0x1D1},{0x1D4,0x1D3},{0x1D6,0x1D5},{0x1D8,0x1D7},{0x1DA,0x1D9},{0x1DC,0x1DB},{0x1DD,0x18E},{0x1DF,0x1DE},{0x1E1,0x1E0},{0x1E3,0x1E2},
{0x1E5,0x1E4},{0x1E7,0x1E6},{0x1E9,0x1E8},{0x1EB,0x1EA},{0x1ED,0x1EC},{0x1EF,0x1EE},{0x1F2,0x1F1},{0x1F3,0x1F1},{0x1F5,0x1F4},{0x1F9,0x1F8},
{0x1FB,0x1FA},{0x1FD,0x1FC},{0x1FF,0x1FE},{0x201,0x200},{0x203,0x202},{0x205,0x204},{0x207,0x206},{0x209,0x208},{0x20B,0x20A},{0x20D,0x20C},
{0x20F,0x20E},{0x211,0x210},{0x213,0x212},{0x215,0x214},{0x217,0x216},{0x219,0x218},{0x21B,0x21A},{0x21D,0x21C},{0x21F,0x21E},{0x223,0x222},
{0x225,0x224},{0x227,0x226},{0x229,0x228},{0x22B,0x22A},{0x22D,0x22C},{0x22F,0x22E},{0x231,0x230},{0x233,0x232},{0x23C,0x23B},{0x23F,0x2C7E},
{0x240,0x2C7F},{0x242,0x241},{0x247,0x246},{0x249,0x248},{0x24B,0x24A},{0x24D,0x24C},{0x24F,0x24E},{0x250,0x2C6F},{0x251,0x2C6D},{0x252,0x2C70},
{0x253,0x181},{0x254,0x186},{0x256,0x189},{0x257,0x18A},{0x259,0x18F},{0x25B,0x190},{0x25C,0xA7AB},{0x260,0x193},{0x261,0xA7AC},{0x263,0x194},
{0x265,0xA78D},{0x266,0xA7AA},{0x268,0x197},{0x269,0x196},{0x26A,0xA7AE},{0x26B,0x2C62},{0x26C,0xA7AD},{0x26F,0x19C},{0x271,0x2C6E},{0x272,0x19D},
{0x275,0x19F},{0x27D,0x2C64},{0x280,0x1A6},{0x282,0xA7C5},{0x283,0x1A9},{0x287,0xA7B1},{0x288,0x1AE},{0x289,0x244},{0x28A,0x1B1},{0x28B,0x1B2},
{0x28C,0x245},{0x292,0x1B7},{0x29D,0xA7B2},{0x29E,0xA7B0},{0x345,0x399},{0x371,0x370},{0x373,0x372},{0x377,0x376},{0x37B,0x3FD},{0x37C,0x3FE},
{0x37D,0x3FF},{0x3AC,0x386},{0x3AD,0x388},{0x3AE,0x389},{0x3AF,0x38A},{0x3B1,0x391},{0x3B2,0x392},{0x3B3,0x393},{0x3B4,0x394},{0x3B5,0x395},
{0x3B6,0x396},{0x3B7,0x397},{0x3B8,0x398},{0x3B9,0x399},{0x3BA,0x39A},{0x3BB,0x39B},{0x3BC,0x39C},{0x3BD,0x39D},{0x3BE,0x39E},{0x3BF,0x39F},
{0x3C0,0x3A0},{0x3C1,0x3A1},{0x3C2,0x3A3},{0x3C3,0x3A3},{0x3C4,0x3A4},{0x3C5,0x3A5},{0x3C6,0x3A6},{0x3C7,0x3A7},{0x3C8,0x3A8},{0x3C9,0x3A9},
{0x3CA,0x3AA},{0x3CB,0x3AB},{0x3CC,0x38C},{0x3CD,0x38E},{0x3CE,0x38F},{0x3D0,0x392},{0x3D1,0x398},{0x3D5,0x3A6},{0x3D6,0x3A0},{0x3D7,0x3CF},
{0x3D9,0x3D8},{0x3DB,0x3DA},{0x3DD,0x3DC},{0x3DF,0x3DE},{0x3E1,0x3E0},{0x3E3,0x3E2},{0x3E5,0x3E4},{0x3E7,0x3E6},{0x3E9,0x3E8},{0x3EB,0x3EA},
{0x3ED,0x3EC},{0x3EF,0x3EE},{0x3F0,0x39A},{0x3F1,0x3A1},{0x3F2,0x3F9},{0x3F3,0x37F},{0x3F5,0x395},{0x3F8,0x3F7},{0x3FB,0x3FA},{0x430,0x410},
{0x431,0x411},{0x432,0x412},{0x433,0x413},{0x434,0x414},{0x435,0x415},{0x436,0x416},{0x437,0x417},{0x438,0x418},{0x439,0x419},{0x43A,0x41A},
{0x43B,0x41B},{0x43C,0x41C},{0x43D,0x41D},{0x43E,0x41E},{0x43F,0x41F},{0x440,0x420},{0x441,0x421},{0x442,0x422},{0x443,0x423},{0x444,0x424},
{0x445,0x425},{0x446,0x426},{0x447,0x427},{0x448,0x428},{0x449,0x429},{0x44A,0x42A},{0x44B,0x42B},{0x44C,0x42C},{0x44D,0x42D},{0x44E,0x42E},
{0x44F,0x42F},{0x450,0x400},{0x451,0x401},{0x452,0x402},{0x453,0x403},{0x454,0x404},{0x455,0x405},{0x456,0x406},{0x457,0x407},{0x458,0x408},
{0x459,0x409},{0x45A,0x40A},{0x45B,0x40B},{0x45C,0x40C},{0x45D,0x40D},{0x45E,0x40E},{0x45F,0x40F},{0x461,0x460},{0x463,0x462},{0x465,0x464},
{0x467,0x466},{0x469,0x468},{0x46B,0x46A},{0x46D,0x46C},{0x46F,0x46E},{0x471,0x470},{0x473,0x472},{0x475,0x474},{0x477,0x476},{0x479,0x478},
{0x47B,0x47A},{0x47D,0x47C},{0x47F,0x47E},{0x481,0x480},{0x48B,0x48A},{0x48D,0x48C},{0x48F,0x48E},{0x491,0x490},{0x493,0x492},{0x495,0x494},
{0x497,0x496},{0x499,0x498},{0x49B,0x49A},{0x49D,0x49C},{0x49F,0x49E},{0x4A1,0x4A0},{0x4A3,0x4A2},{0x4A5,0x4A4},{0x4A7,0x4A6},{0x4A9,0x4A8},
{0x4AB,0x4AA},{0x4AD,0x4AC},{0x4AF,0x4AE},{0x4B1,0x4B0},{0x4B3,0x4B2},{0x4B5,0x4B4},{0x4B7,0x4B6},{0x4B9,0x4B8},{0x4BB,0x4BA},{0x4BD,0x4BC},
{0x4BF,0x4BE},{0x4C2,0x4C1},{0x4C4,0x4C3},{0x4C6,0x4C5},{0x4C8,0x4C7},{0x4CA,0x4C9},{0x4CC,0x4CB},{0x4CE,0x4CD},{0x4CF,0x4C0},{0x4D1,0x4D0},
{0x4D3,0x4D2},{0x4D5,0x4D4},{0x4D7,0x4D6},{0x4D9,0x4D8},{0x4DB,0x4DA},{0x4DD,0x4DC},{0x4DF,0x4DE},{0x4E1,0x4E0},{0x4E3,0x4E2},{0x4E5,0x4E4},
{0x4E7,0x4E6},{0x4E9,0x4E8},{0x4EB,0x4EA},{0x4ED,0x4EC},{0x4EF,0x4EE},{0x4F1,0x4F0},{0x4F3,0x4F2},{0x4F5,0x4F4},{0x4F7,0x4F6},{0x4F9,0x4F8},
{0x4FB,0x4FA},{0x4FD,0x4FC},{0x4FF,0x4FE},{0x501,0x500},{0x503,0x502},{0x505,0x504},{0x507,0x506},{0x509,0x508},{0x50B,0x50A},{0x50D,0x50C},
{0x50F,0x50E},{0x511,0x510},{0x513,0x512},{0x515,0x514},{0x517,0x516},{0x519,0x518},{0x51B,0x51A},{0x51D,0x51C},{0x51F,0x51E},{0x521,0x520},
{0x523,0x522},{0x525,0x524},{0x527,0x526},{0x529,0x528},{0x52B,0x52A},{0x52D,0x52C},{0x52F,0x52E},{0x561,0x531},{0x562,0x532},{0x563,0x533},
{0x564,0x534},{0x565,0x535},{0x566,0x536},{0x567,0x537},{0x568,0x538},{0x569,0x539},{0x56A,0x53A},{0x56B,0x53B},{0x56C,0x53C},{0x56D,0x53D},
{0x56E,0x53E},{0x56F,0x53F},{0x570,0x540},{0x571,0x541},{0x572,0x542},{0x573,0x543},{0x574,0x544},{0x575,0x545},{0x576,0x546},{0x577,0x547},
{0x578,0x548},{0x579,0x549},{0x57A,0x54A},{0x57B,0x54B},{0x57C,0x54C},{0x57D,0x54D},{0x57E,0x54E},{0x57F,0x54F},{0x580,0x550},{0x581,0x551},
{0x582,0x552},{0x583,0x553},{0x584,0x554},{0x585,0x555},{0x586,0x556},{0x10D0,0x1C90},{0x10D1,0x1C91},{0x10D2,0x1C92},{0x10D3,0x1C93},{0x10D4,0x1C94},
{0x10D5,0x1C95},{0x10D6,0x1C96},{0x10D7,0x1C97},{0x10D8,0x1C98},{0x10D9,0x1C99},{0x10DA,0x1C9A},{0x10DB,0x1C9B},{0x10DC,0x1C9C},{0x10DD,0x1C9D},{0x10DE,0x1C9E},
{0x10DF,0x1C9F},{0x10E0,0x1CA0},{0x10E1,0x1CA1},{0x10E2,0x1CA2},{0x10E3,0x1CA3},{0x10E4,0x1CA4},{0x10E5,0x1CA5},{0x10E6,0x1CA6},{0x10E7,0x1CA7},{0x10E8,0x1CA8},
{0x10E9,0x1CA9},{0x10EA,0x1CAA},{0x10EB,0x1CAB},{0x10EC,0x1CAC},{0x10ED,0x1CAD},{0x10EE,0x1CAE},{0x10EF,0x1CAF},{0x10F0,0x1CB0},{0x10F1,0x1CB1},{0x10F2,0x1CB2},
{0x10F3,0x1CB3},{0x10F4,0x1CB4},{0x10F5,0x1CB5},{0x10F6,0x1CB6},{0x10F7,0x1CB7},{0x10F8,0x1CB8},{0x10F9,0x1CB9},{0x10FA,0x1CBA},{0x10FD,0x1CBD},{0x10FE,0x1CBE},
{0x10FF,0x1CBF},{0x13F8,0x13F0},{0x13F9,0x13F1},{0x13FA,0x13F2},{0x13FB,0x13F3},{0x13FC,0x13F4},{0x13FD,0x13F5},{0x1C80,0x412},{0x1C81,0x414},{0x1C82,0x41E},
{0x1C83,0x421},{0x1C84,0x422},{0x1C85,0x422},{0x1C86,0x42A},{0x1C87,0x462},{0x1C88,0xA64A},{0x1D79,0xA77D},{0x1D7D,0x2C63},{0x1D8E,0xA7C6},{0x1E01,0x1E00},
{0x1E03,0x1E02},{0x1E05,0x1E04},{0x1E07,0x1E06},{0x1E09,0x1E08},{0x1E0B,0x1E0A},{0x1E0D,0x1E0C},{0x1E0F,0x1E0E},{0x1E11,0x1E10},{0x1E13,0x1E12},{0x1E15,0x1E14},
{0x1E17,0x1E16},{0x1E19,0x1E18},{0x1E1B,0x1E1A},{0x1E1D,0x1E1C},{0x1E1F,0x1E1E},{0x1E21,0x1E20},{0x1E23,0x1E22},{0x1E25,0x1E24},{0x1E27,0x1E26},{0x1E29,0x1E28},
{0x1E2B,0x1E2A},{0x1E2D,0x1E2C},{0x1E2F,0x1E2E},{0x1E31,0x1E30},{0x1E33,0x1E32},{0x1E35,0x1E34},{0x1E37,0x1E36},{0x1E39,0x1E38},{0x1E3B,0x1E3A},{0x1E3D,0x1E3C},
{0x1E3F,0x1E3E},{0x1E41,0x1E40},{0x1E43,0x1E42},{0x1E45,0x1E44},{0x1E47,0x1E46},{0x1E49,0x1E48},{0x1E4B,0x1E4A},{0x1E4D,0x1E4C},{0x1E4F,0x1E4E},{0x1E51,0x1E50},
{0x1E53,0x1E52},{0x1E55,0x1E54},{0x1E57,0x1E56},{0x1E59,0x1E58},{0x1E5B,0x1E5A},{0x1E5D,0x1E5C},{0x1E5F,0x1E5E},{0x1E61,0x1E60},{0x1E63,0x1E62},{0x1E65,0x1E64},
{0x1E67,0x1E66},{0x1E69,0x1E68},{0x1E6B,0x1E6A},{0x1E6D,0x1E6C},{0x1E6F,0x1E6E},{0x1E71,0x1E70},{0x1E73,0x1E72},{0x1E75,0x1E74},{0x1E77,0x1E76},{0x1E79,0x1E78},
{0x1E7B,0x1E7A},{0x1E7D,0x1E7C},{0x1E7F,0x1E7E},{0x1E81,0x1E80},{0x1E83,0x1E82},{0x1E85,0x1E84},{0x1E87,0x1E86},{0x1E89,0x1E88},{0x1E8B,0x1E8A},{0x1E8D,0x1E8C},
{0x1E8F,0x1E8E},{0x1E91,0x1E90},{0x1E93,0x1E92},{0x1E95,0x1E94},{0x1E9B,0x1E60},{0x1EA1,0x1EA0},{0x1EA3,0x1EA2},{0x1EA5,0x1EA4},{0x1EA7,0x1EA6},{0x1EA9,0x1EA8},
{0x1EAB,0x1EAA},{0x1EAD,0x1EAC},{0x1EAF,0x1EAE},{0x1EB1,0x1EB0},{0x1EB3,0x1EB2},{0x1EB5,0x1EB4},{0x1EB7,0x1EB6},{0x1EB9,0x1EB8},{0x1EBB,0x1EBA},{0x1EBD,0x1EBC},
{0x1EBF,0x1EBE},{0x1EC1,0x1EC0},{0x1EC3,0x1EC2},{0x1EC5,0x1EC4},{0x1EC7,0x1EC6},{0x1EC9,0x1EC8},{0x1ECB,0x1ECA},{0x1ECD,0x1ECC},{0x1ECF,0x1ECE},{0x1ED1,0x1ED0},
{0x1ED3,0x1ED2},{0x1ED5,0x1ED4},{0x1ED7,0x1ED6},{0x1ED9,0x1ED8},{0x1EDB,0x1EDA},{0x1EDD,0x1EDC},{0x1EDF,0x1EDE},{0x1EE1,0x1EE0},{0x1EE3,0x1EE2},{0x1EE5,0x1EE4},
{0x1EE7,0x1EE6},{0x1EE9,0x1EE8},{0x1EEB,0x1EEA},{0x1EED,0x1EEC},{0x1EEF,0x1EEE},{0x1EF1,0x1EF0},{0x1EF3,0x1EF2},{0x1EF5,0x1EF4},{0x1EF7,0x1EF6},{0x1EF9,0x1EF8},
{0x1EFB,0x1EFA},{0x1EFD,0x1EFC},{0x1EFF,0x1EFE},{0x1F00,0x1F08},{0x1F01,0x1F09},{0x1F02,0x1F0A},{0x1F03,0x1F0B},{0x1F04,0x1F0C},{0x1F05,0x1F0D},{0x1F06,0x1F0E},
{0x1F07,0x1F0F},{0x1F10,0x1F18},{0x1F11,0x1F19},{0x1F12,0x1F1A},{0x1F13,0x1F1B},{0x1F14,0x1F1C},{0x1F15,0x1F1D},{0x1F20,0x1F28},{0x1F21,0x1F29},{0x1F22,0x1F2A},
{0x1F23,0x1F2B},{0x1F24,0x1F2C},{0x1F25,0x1F2D},{0x1F26,0x1F2E},{0x1F27,0x1F2F},{0x1F30,0x1F38},{0x1F31,0x1F39},{0x1F32,0x1F3A},{0x1F33,0x1F3B},{0x1F34,0x1F3C},
{0x1F35,0x1F3D},{0x1F36,0x1F3E},{0x1F37,0x1F3F},{0x1F40,0x1F48},{0x1F41,0x1F49},{0x1F42,0x1F4A},{0x1F43,0x1F4B},{0x1F44,0x1F4C},{0x1F45,0x1F4D},{0x1F51,0x1F59},
{0x1F53,0x1F5B},{0x1F55,0x1F5D},{0x1F57,0x1F5F},{0x1F60,0x1F68},{0x1F61,0x1F69},{0x1F62,0x1F6A},{0x1F63,0x1F6B},{0x1F64,0x1F6C},{0x1F65,0x1F6D},{0x1F66,0x1F6E},
{0x1F67,0x1F6F},{0x1F70,0x1FBA},{0x1F71,0x1FBB},{0x1F72,0x1FC8},{0x1F73,0x1FC9},{0x1F74,0x1FCA},{0x1F75,0x1FCB},{0x1F76,0x1FDA},{0x1F77,0x1FDB},{0x1F78,0x1FF8},
{0x1F79,0x1FF9},{0x1F7A,0x1FEA},{0x1F7B,0x1FEB},{0x1F7C,0x1FFA},{0x1F7D,0x1FFB},{0x1F80,0x1F88},{0x1F81,0x1F89},{0x1F82,0x1F8A},{0x1F83,0x1F8B},{0x1F84,0x1F8C},
{0x1F85,0x1F8D},{0x1F86,0x1F8E},{0x1F87,0x1F8F},{0x1F90,0x1F98},{0x1F91,0x1F99},{0x1F92,0x1F9A},{0x1F93,0x1F9B},{0x1F94,0x1F9C},{0x1F95,0x1F9D},{0x1F96,0x1F9E},
{0x1F97,0x1F9F},{0x1FA0,0x1FA8},{0x1FA1,0x1FA9},{0x1FA2,0x1FAA},{0x1FA3,0x1FAB},{0x1FA4,0x1FAC},{0x1FA5,0x1FAD},{0x1FA6,0x1FAE},{0x1FA7,0x1FAF},{0x1FB0,0x1FB8},
{0x1FB1,0x1FB9},{0x1FB3,0x1FBC},{0x1FBE,0x399},{0x1FC3,0x1FCC},{0x1FD0,0x1FD8},{0x1FD1,0x1FD9},{0x1FE0,0x1FE8},{0x1FE1,0x1FE9},{0x1FE5,0x1FEC},{0x1FF3,0x1FFC},
{0x214E,0x2132},{0x2170,0x2160},{0x2171,0x2161},{0x2172,0x2162},{0x2173,0x2163},{0x2174,0x2164},{0x2175,0x2165},{0x2176,0x2166},{0x2177,0x2167},{0x2178,0x2168},
{0x2179,0x2169},{0x217A,0x216A},{0x217B,0x216B},{0x217C,0x216C},{0x217D,0x216D},{0x217E,0x216E},{0x217F,0x216F},{0x2184,0x2183},{0x24D0,0x24B6},{0x24D1,0x24B7},
{0x24D2,0x24B8},{0x24D3,0x24B9},{0x24D4,0x24BA},{0x24D5,0x24BB},{0x24D6,0x24BC},{0x24D7,0x24BD},{0x24D8,0x24BE},{0x24D9,0x24BF},{0x24DA,0x24C0},{0x24DB,0x24C1},
{0x24DC,0x24C2},{0x24DD,0x24C3},{0x24DE,0x24C4},{0x24DF,0x24C5},{0x24E0,0x24C6},{0x24E1,0x24C7},{0x24E2,0x24C8},{0x24E3,0x24C9},{0x24E4,0x24CA},{0x24E5,0x24CB},
{0x24E6,0x24CC},{0x24E7,0x24CD},{0x24E8,0x24CE},{0x24E9,0x24CF},{0x2C30,0x2C00},{0x2C31,0x2C01},{0x2C32,0x2C02},{0x2C33,0x2C03},{0x2C34,0x2C04},{0x2C35,0x2C05},
{0x2C36,0x2C06},{0x2C37,0x2C07},{0x2C38,0x2C08},{0x2C39,0x2C09},{0x2C3A,0x2C0A},{0x2C3B,0x2C0B},{0x2C3C,0x2C0C},{0x2C3D,0x2C0D},{0x2C3E,0x2C0E},{0x2C3F,0x2C0F},
{0x2C40,0x2C10},{0x2C41,0x2C11},{0x2C42,0x2C12},{0x2C43,0x2C13},{0x2C44,0x2C14},{0x2C45,0x2C15},{0x2C46,0x2C16},{0x2C47,0x2C17},{0x2C48,0x2C18},{0x2C49,0x2C19},
{0x2C4A,0x2C1A},{0x2C4B,0x2C1B},{0x2C4C,0x2C1C},{0x2C4D,0x2C1D},{0x2C4E,0x2C1E},{0x2C4F,0x2C1F},{0x2C50,0x2C20},{0x2C51,0x2C21},{0x2C52,0x2C22},{0x2C53,0x2C23},
{0x2C54,0x2C24},{0x2C55,0x2C25},{0x2C56,0x2C26},{0x2C57,0x2C27},{0x2C58,0x2C28},{0x2C59,0x2C29},{0x2C5A,0x2C2A},{0x2C5B,0x2C2B},{0x2C5C,0x2C2C},{0x2C5D,0x2C2D},
{0x2C5E,0x2C2E},{0x2C5F,0x2C2F},{0x2C61,0x2C60},{0x2C65,0x23A},{0x2C66,0x23E},{0x2C68,0x2C67},{0x2C6A,0x2C69},{0x2C6C,0x2C6B},{0x2C73,0x2C72},{0x2C76,0x2C75},
{0x2C81,0x2C80},{0x2C83,0x2C82},{0x2C85,0x2C84},{0x2C87,0x2C86},{0x2C89,0x2C88},{0x2C8B,0x2C8A},{0x2C8D,0x2C8C},{0x2C8F,0x2C8E},{0x2C91,0x2C90},{0x2C93,0x2C92},
{0x2C95,0x2C94},{0x2C97,0x2C96},{0x2C99,0x2C98},{0x2C9B,0x2C9A},{0x2C9D,0x2C9C},{0x2C9F,0x2C9E},{0x2CA1,0x2CA0},{0x2CA3,0x2CA2},{0x2CA5,0x2CA4},{0x2CA7,0x2CA6},
{0x2CA9,0x2CA8},{0x2CAB,0x2CAA},{0x2CAD,0x2CAC},{0x2CAF,0x2CAE},{0x2CB1,0x2CB0},{0x2CB3,0x2CB2},{0x2CB5,0x2CB4},{0x2CB7,0x2CB6},{0x2CB9,0x2CB8},{0x2CBB,0x2CBA},
{0x2CBD,0x2CBC},{0x2CBF,0x2CBE},{0x2CC1,0x2CC0},{0x2CC3,0x2CC2},{0x2CC5,0x2CC4},{0x2CC7,0x2CC6},{0x2CC9,0x2CC8},{0x2CCB,0x2CCA},{0x2CCD,0x2CCC},{0x2CCF,0x2CCE},
{0x2CD1,0x2CD0},{0x2CD3,0x2CD2},{0x2CD5,0x2CD4},{0x2CD7,0x2CD6},{0x2CD9,0x2CD8},{0x2CDB,0x2CDA},{0x2CDD,0x2CDC},{0x2CDF,0x2CDE},{0x2CE1,0x2CE0},{0x2CE3,0x2CE2},
{0x2CEC,0x2CEB},{0x2CEE,0x2CED},{0x2CF3,0x2CF2},{0x2D00,0x10A0},{0x2D01,0x10A1},{0x2D02,0x10A2},{0x2D03,0x10A3},{0x2D04,0x10A4},{0x2D05,0x10A5},{0x2D06,0x10A6},
{0x2D07,0x10A7},{0x2D08,0x10A8},{0x2D09,0x10A9},{0x2D0A,0x10AA},{0x2D0B,0x10AB},{0x2D0C,0x10AC},{0x2D0D,0x10AD},{0x2D0E,0x10AE},{0x2D0F,0x10AF},{0x2D10,0x10B0},
{0x2D11,0x10B1},{0x2D12,0x10B2},{0x2D13,0x10B3},{0x2D14,0x10B4},{0x2D15,0x10B5},{0x2D16,0x10B6},{0x2D17,0x10B7},{0x2D18,0x10B8},{0x2D19,0x10B9},{0x2D1A,0x10BA},
{0x2D1B,0x10BB},{0x2D1C,0x10BC},{0x2D1D,0x10BD},{0x2D1E,0x10BE},{0x2D1F,0x10BF},{0x2D20,0x10C0},{0x2D21,0x10C1},{0x2D22,0x10C2},{0x2D23,0x10C3},{0x2D24,0x10C4},
{0x2D25,0x10C5},{0x2D27,0x10C7},{0x2D2D,0x10CD},{0xA641,0xA640},{0xA643,0xA642},{0xA645,0xA644},{0xA647,0xA646},{0xA649,0xA648},{0xA64B,0xA64A},{0xA64D,0xA64C},
{0xA64F,0xA64E},{0xA651,0xA650},{0xA653,0xA652},{0xA655,0xA654},{0xA657,0xA656},{0xA659,0xA658},{0xA65B,0xA65A},{0xA65D,0xA65C},{0xA65F,0xA65E},{0xA661,0xA660},
{0xA663,0xA662},{0xA665,0xA664},{0xA667,0xA666},{0xA669,0xA668},{0xA66B,0xA66A},{0xA66D,0xA66C},{0xA681,0xA680},{0xA683,0xA682},{0xA685,0xA684},{0xA687,0xA686},
{0xA689,0xA688},{0xA68B,0xA68A},{0xA68D,0xA68C},{0xA68F,0xA68E},{0xA691,0xA690},{0xA693,0xA692},{0xA695,0xA694},{0xA697,0xA696},{0xA699,0xA698},{0xA69B,0xA69A},
{0xA723,0xA722},{0xA725,0xA724},{0xA727,0xA726},{0xA729,0xA728},{0xA72B,0xA72A},{0xA72D,0xA72C},{0xA72F,0xA72E},{0xA733,0xA732},{0xA735,0xA734},{0xA737,0xA736},
{0xA739,0xA738},{0xA73B,0xA73A},{0xA73D,0xA73C},{0xA73F,0xA73E},{0xA741,0xA740},{0xA743,0xA742},{0xA745,0xA744},{0xA747,0xA746},{0xA749,0xA748},{0xA74B,0xA74A},
{0xA74D,0xA74C},{0xA74F,0xA74E},{0xA751,0xA750},{0xA753,0xA752},{0xA755,0xA754},{0xA757,0xA756},{0xA759,0xA758},{0xA75B,0xA75A},{0xA75D,0xA75C},{0xA75F,0xA75E},
{0xA761,0xA760},{0xA763,0xA762},{0xA765,0xA764},{0xA767,0xA766},{0xA769,0xA768},{0xA76B,0xA76A},{0xA76D,0xA76C},{0xA76F,0xA76E},{0xA77A,0xA779},{0xA77C,0xA77B},
{0xA77F,0xA77E},{0xA781,0xA780},{0xA783,0xA782},{0xA785,0xA784},{0xA787,0xA786},{0xA78C,0xA78B},{0xA791,0xA790},{0xA793,0xA792},{0xA794,0xA7C4},{0xA797,0xA796},
{0xA799,0xA798},{0xA79B,0xA79A},{0xA79D,0xA79C},{0xA79F,0xA79E},{0xA7A1,0xA7A0},{0xA7A3,0xA7A2},{0xA7A5,0xA7A4},{0xA7A7,0xA7A6},{0xA7A9,0xA7A8},{0xA7B5,0xA7B4},
{0xA7B7,0xA7B6},{0xA7B9,0xA7B8},{0xA7BB,0xA7BA},{0xA7BD,0xA7BC},{0xA7BF,0xA7BE},{0xA7C1,0xA7C0},{0xA7C3,0xA7C2},{0xA7C8,0xA7C7},{0xA7CA,0xA7C9},{0xA7D1,0xA7D0},
{0xA7D7,0xA7D6},{0xA7D9,0xA7D8},{0xA7F6,0xA7F5},{0xAB53,0xA7B3},{0xAB70,0x13A0},{0xAB71,0x13A1},{0xAB72,0x13A2},{0xAB73,0x13A3},{0xAB74,0x13A4},{0xAB75,0x13A5},
{0xAB76,0x13A6},{0xAB77,0x13A7},{0xAB78,0x13A8},{0xAB79,0x13A9},{0xAB7A,0x13AA},{0xAB7B,0x13AB},{0xAB7C,0x13AC},{0xAB7D,0x13AD},{0xAB7E,0x13AE},{0xAB7F,0x13AF},
{0xAB80,0x13B0},{0xAB81,0x13B1},{0xAB82,0x13B2},{0xAB83,0x13B3},{0xAB84,0x13B4},{0xAB85,0x13B5},{0xAB86,0x13B6},{0xAB87,0x13B7},{0xAB88,0x13B8},{0xAB89,0x13B9},
{0xAB8A,0x13BA},{0xAB8B,0x13BB},{0xAB8C,0x13BC},{0xAB8D,0x13BD},{0xAB8E,0x13BE},{0xAB8F,0x13BF},{0xAB90,0x13C0},{0xAB91,0x13C1},{0xAB92,0x13C2},{0xAB93,0x13C3},
{0xAB94,0x13C4},{0xAB95,0x13C5},{0xAB96,0x13C6},{0xAB97,0x13C7},{0xAB98,0x13C8},{0xAB99,0x13C9},{0xAB9A,0x13CA},{0xAB9B,0x13CB},{0xAB9C,0x13CC},{0xAB9D,0x13CD},
{0xAB9E,0x13CE},{0xAB9F,0x13CF},{0xABA0,0x13D0},{0xABA1,0x13D1},{0xABA2,0x13D2},{0xABA3,0x13D3},{0xABA4,0x13D4},{0xABA5,0x13D5},{0xABA6,0x13D6},{0xABA7,0x13D7},
{0xABA8,0x13D8},{0xABA9,0x13D9},{0xABAA,0x13DA},{0xABAB,0x13DB},{0xABAC,0x13DC},{0xABAD,0x13DD},{0xABAE,0x13DE},{0xABAF,0x13DF},{0xABB0,0x13E0},{0xABB1,0x13E1},
{0xABB2,0x13E2},{0xABB3,0x13E3},{0xABB4,0x13E4},{0xABB5,0x13E5},{0xABB6,0x13E6},{0xABB7,0x13E7},{0xABB8,0x13E8},{0xABB9,0x13E9},{0xABBA,0x13EA},{0xABBB,0x13EB},
{0xABBC,0x13EC},{0xABBD,0x13ED},{0xABBE,0x13EE},{0xABBF,0x13EF},{0xFF41,0xFF21},{0xFF42,0xFF22},{0xFF43,0xFF23},{0xFF44,0xFF24},{0xFF45,0xFF25},{0xFF46,0xFF26},
{0xFF47,0xFF27},{0xFF48,0xFF28},{0xFF49,0xFF29},{0xFF4A,0xFF2A},{0xFF4B,0xFF2B},{0xFF4C,0xFF2C},{0xFF4D,0xFF2D},{0xFF4E,0xFF2E},{0xFF4F,0xFF2F},{0xFF50,0xFF30},
{0xFF51,0xFF31},{0xFF52,0xFF32},{0xFF53,0xFF33},{0xFF54,0xFF34},{0xFF55,0xFF35},{0xFF56,0xFF36},{0xFF57,0xFF37},{0xFF58,0xFF38},{0xFF59,0xFF39},{0xFF5A,0xFF3A},
{0x10428,0x10400},{0x10429,0x10401},{0x1042A,0x10402},{0x1042B,0x10403},{0x1042C,0x10404},{0x1042D,0x10405},{0x1042E,0x10406},{0x1042F,0x10407},{0x10430,0x10408},{0x10431,0x10409},
{0x10432,0x1040A},{0x10433,0x1040B},{0x10434,0x1040C},{0x10435,0x1040D},{0x10436,0x1040E},{0x10437,0x1040F},{0x10438,0x10410},{0x10439,0x10411},{0x1043A,0x10412},{0x1043B,0x10413},
{0x1043C,0x10414},{0x1043D,0x10415},{0x1043E,0x10416},{0x1043F,0x10417},{0x10440,0x10418},{0x10441,0x10419},{0x10442,0x1041A},{0x10443,0x1041B},{0x10444,0x1041C},{0x10445,0x1041D},
{0x10446,0x1041E},{0x10447,0x1041F},{0x10448,0x10420},{0x10449,0x10421},{0x1044A,0x10422},{0x1044B,0x10423},{0x1044C,0x10424},{0x1044D,0x10425},{0x1044E,0x10426},{0x1044F,0x10427},
{0x104D8,0x104B0},{0x104D9,0x104B1},{0x104DA,0x104B2},{0x104DB,0x104B3},{0x104DC,0x104B4},{0x104DD,0x104B5},{0x104DE,0x104B6},{0x104DF,0x104B7},{0x104E0,0x104B8},{0x104E1,0x104B9},
{0x104E2,0x104BA},{0x104E3,0x104BB},{0x104E4,0x104BC},{0x104E5,0x104BD},{0x104E6,0x104BE},{0x104E7,0x104BF},{0x104E8,0x104C0},{0x104E9,0x104C1},{0x104EA,0x104C2},{0x104EB,0x104C3},
{0x104EC,0x104C4},{0x104ED,0x104C5},{0x104EE,0x104C6},{0x104EF,0x104C7},{0x104F0,0x104C8},{0x104F1,0x104C9},{0x104F2,0x104CA},{0x104F3,0x104CB},{0x104F4,0x104CC},{0x104F5,0x104CD},
{0x104F6,0x104CE},{0x104F7,0x104CF},{0x104F8,0x104D0},{0x104F9,0x104D1},{0x104FA,0x104D2},{0x104FB,0x104D3},{0x10597,0x10570},{0x10598,0x10571},{0x10599,0x10572},{0x1059A,0x10573},
{0x1059B,0x10574},{0x1059C,0x10575},{0x1059D,0x10576},{0x1059E,0x10577},{0x1059F,0x10578},{0x105A0,0x10579},{0x105A1,0x1057A},{0x105A3,0x1057C},{0x105A4,0x1057D},{0x105A5,0x1057E},
{0x105A6,0x1057F},{0x105A7,0x10580},{0x105A8,0x10581},{0x105A9,0x10582},{0x105AA,0x10583},{0x105AB,0x10584},{0x105AC,0x10585},{0x105AD,0x10586},{0x105AE,0x10587},{0x105AF,0x10588},
{0x105B0,0x10589},{0x105B1,0x1058A},{0x105B3,0x1058C},{0x105B4,0x1058D},{0x105B5,0x1058E},{0x105B6,0x1058F},{0x105B7,0x10590},{0x105B8,0x10591},{0x105B9,0x10592},{0x105BB,0x10594},
{0x105BC,0x10595},{0x10CC0,0x10C80},{0x10CC1,0x10C81},{0x10CC2,0x10C82},{0x10CC3,0x10C83},{0x10CC4,0x10C84},{0x10CC5,0x10C85},{0x10CC6,0x10C86},{0x10CC7,0x10C87},{0x10CC8,0x10C88},
{0x10CC9,0x10C89},{0x10CCA,0x10C8A},{0x10CCB,0x10C8B},{0x10CCC,0x10C8C},{0x10CCD,0x10C8D},{0x10CCE,0x10C8E},{0x10CCF,0x10C8F},{0x10CD0,0x10C90},{0x10CD1,0x10C91},{0x10CD2,0x10C92},
{0x10CD3,0x10C93},{0x10CD4,0x10C94},{0x10CD5,0x10C95},{0x10CD6,0x10C96},{0x10CD7,0x10C97},{0x10CD8,0x10C98},{0x10CD9,0x10C99},{0x10CDA,0x10C9A},{0x10CDB,0x10C9B},{0x10CDC,0x10C9C},
{0x10CDD,0x10C9D},{0x10CDE,0x10C9E},{0x10CDF,0x10C9F},{0x10CE0,0x10CA0},{0x10CE1,0x10CA1},{0x10CE2,0x10CA2},{0x10CE3,0x10CA3},{0x10CE4,0x10CA4},{0x10CE5,0x10CA5},{0x10CE6,0x10CA6},
{0x10CE7,0x10CA7},{0x10CE8,0x10CA8},{0x10CE9,0x10CA9},{0x10CEA,0x10CAA},{0x10CEB,0x10CAB},{0x10CEC,0x10CAC},{0x10CED,0x10CAD},{0x10CEE,0x10CAE},{0x10CEF,0x10CAF},{0x10CF0,0x10CB0},
{0x10CF1,0x10CB1},{0x10CF2,0x10CB2},{0x118C0,0x118A0},{0x118C1,0x118A1},{0x118C2,0x118A2},{0x118C3,0x118A3},{0x118C4,0x118A4},{0x118C5,0x118A5},{0x118C6,0x118A6},{0x118C7,0x118A7},
{0x118C8,0x118A8},{0x118C9,0x118A9},{0x118CA,0x118AA},{0x118CB,0x118AB},{0x118CC,0x118AC},{0x118CD,0x118AD},{0x118CE,0x118AE},{0x118CF,0x118AF},{0x118D0,0x118B0},{0x118D1,0x118B1},
{0x118D2,0x118B2},{0x118D3,0x118B3},{0x118D4,0x118B4},{0x118D5,0x118B5},{0x118D6,0x118B6},{0x118D7,0x118B7},{0x118D8,0x118B8},{0x118D9,0x118B9},{0x118DA,0x118BA},{0x118DB,0x118BB},
{0x118DC,0x118BC},{0x118DD,0x118BD},{0x118DE,0x118BE},{0x118DF,0x118BF},{0x16E60,0x16E40},{0x16E61,0x16E41},{0x16E62,0x16E42},{0x16E63,0x16E43},{0x16E64,0x16E44},{0x16E65,0x16E45},
{0x16E66,0x16E46},{0x16E67,0x16E47},{0x16E68,0x16E48},{0x16E69,0x16E49},{0x16E6A,0x16E4A},{0x16E6B,0x16E4B},{0x16E6C,0x16E4C},{0x16E6D,0x16E4D},{0x16E6E,0x16E4E},{0x16E6F,0x16E4F},
{0x16E70,0x16E50},{0x16E71,0x16E51},{0x16E72,0x16E52},{0x16E73,0x16E53},{0x16E74,0x16E54},{0x16E75,0x16E55},{0x16E76,0x16E56},{0x16E77,0x16E57},{0x16E78,0x16E58},{0x16E79,0x16E59},
{0x16E7A,0x16E5A},{0x16E7B,0x16E5B},{0x16E7C,0x16E5C},{0x16E7D,0x16E5D},{0x16E7E,0x16E5E},{0x16E7F,0x16E5F},{0x1E922,0x1E900},{0x1E923,0x1E901},{0x1E924,0x1E902},{0x1E925,0x1E903},
{0x1E926,0x1E904},{0x1E927,0x1E905},{0x1E928,0x1E906},{0x1E929,0x1E907},{0x1E92A,0x1E908},{0x1E92B,0x1E909},{0x1E92C,0x1E90A},{0x1E92D,0x1E90B},{0x1E92E,0x1E90C},{0x1E92F,0x1E90D},
{0x1E930,0x1E90E},{0x1E931,0x1E90F},{0x1E932,0x1E910},{0x1E933,0x1E911},{0x1E934,0x1E912},{0x1E935,0x1E913},{0x1E936,0x1E914},{0x1E937,0x1E915},{0x1E938,0x1E916},{0x1E939,0x1E917},
{0x1E93A,0x1E918},{0x1E93B,0x1E919},{0x1E93C,0x1E91A},{0x1E93D,0x1E91B},{0x1E93E,0x1E91C},{0x1E93F,0x1E91D},{0x1E940,0x1E91E},{0x1E941,0x1E91F},{0x1E942,0x1E920},{0x1E943,0x1E921},

};
static const uint32_t uni_lower[][2] = {
{0x41,0x61},{0x42,0x62},{0x43,0x63},{0x44,0x64},{0x45,0x65},{0x46,0x66},{0x47,0x67},{0x48,0x68},{0x49,0x69},{0x4A,0x6A},
{0x4B,0x6B},{0x4C,0x6C},{0x4D,0x6D},{0x4E,0x6E},{0x4F,0x6F},{0x50,0x70},{0x51,0x71},{0x52,0x72},{0x53,0x73},{0x54,0x74},
{0x55,0x75},{0x56,0x76},{0x57,0x77},{0x58,0x78},{0x59,0x79},{0x5A,0x7A},{0xC0,0xE0},{0xC1,0xE1},{0xC2,0xE2},{0xC3,0xE3},
{0xC4,0xE4},{0xC5,0xE5},{0xC6,0xE6},{0xC7,0xE7},{0xC8,0xE8},{0xC9,0xE9},{0xCA,0xEA},{0xCB,0xEB},{0xCC,0xEC},{0xCD,0xED},
{0xCE,0xEE},{0xCF,0xEF},{0xD0,0xF0},{0xD1,0xF1},{0xD2,0xF2},{0xD3,0xF3},{0xD4,0xF4},{0xD5,0xF5},{0xD6,0xF6},{0xD8,0xF8},
{0xD9,0xF9},{0xDA,0xFA},{0xDB,0xFB},{0xDC,0xFC},{0xDD,0xFD},{0xDE,0xFE},{0x100,0x101},{0x102,0x103},{0x104,0x105},{0x106,0x107},
{0x108,0x109},{0x10A,0x10B},{0x10C,0x10D},{0x10E,0x10F},{0x110,0x111},{0x112,0x113},{0x114,0x115},{0x116,0x117},{0x118,0x119},{0x11A,0x11B},
{0x11C,0x11D},{0x11E,0x11F},{0x120,0x121},{0x122,0x123},{0x124,0x125},{0x126,0x127},{0x128,0x129},{0x12A,0x12B},{0x12C,0x12D},{0x12E,0x12F},
{0x130,0x69},{0x132,0x133},{0x134,0x135},{0x136,0x137},{0x139,0x13A},{0x13B,0x13C},{0x13D,0x13E},{0x13F,0x140},{0x141,0x142},{0x143,0x144},
{0x145,0x146},{0x147,0x148},{0x14A,0x14B},{0x14C,0x14D},{0x14E,0x14F},{0x150,0x151},{0x152,0x153},{0x154,0x155},{0x156,0x157},{0x158,0x159},
{0x15A,0x15B},{0x15C,0x15D},{0x15E,0x15F},{0x160,0x161},{0x162,0x163},{0x164,0x165},{0x166,0x167},{0x168,0x169},{0x16A,0x16B},{0x16C,0x16D},
{0x16E,0x16F},{0x170,0x171},{0x172,0x173},{0x174,0x175},{0x176,0x177},{0x178,0xFF},{0x179,0x17A},{0x17B,0x17C},{0x17D,0x17E},{0x181,0x253},
{0x182,0x183},{0x184,0x185},{0x186,0x254},{0x187,0x188},{0x189,0x256},{0x18A,0x257},{0x18B,0x18C},{0x18E,0x1DD},{0x18F,0x259},{0x190,0x25B},
{0x191,0x192},{0x193,0x260},{0x194,0x263},{0x196,0x269},{0x197,0x268},{0x198,0x199},{0x19C,0x26F},{0x19D,0x272},{0x19F,0x275},{0x1A0,0x1A1},
{0x1A2,0x1A3},{0x1A4,0x1A5},{0x1A6,0x280},{0x1A7,0x1A8},{0x1A9,0x283},{0x1AC,0x1AD},{0x1AE,0x288},{0x1AF,0x1B0},{0x1B1,0x28A},{0x1B2,0x28B},
{0x1B3,0x1B4},{0x1B5,0x1B6},{0x1B7,0x292},{0x1B8,0x1B9},{0x1BC,0x1BD},{0x1C4,0x1C6},{0x1C5,0x1C6},{0x1C7,0x1C9},{0x1C8,0x1C9},{0x1CA,0x1CC},
{0x1CB,0x1CC},{0x1CD,0x1CE},{0x1CF,0x1D0},{0x1D1,0x1D2},{0x1D3,0x1D4},{0x1D5,0x1D6},{0x1D7,0x1D8},{0x1D9,0x1DA},{0x1DB,0x1DC},{0x1DE,0x1DF},
{0x1E0,0x1E1},{0x1E2,0x1E3},{0x1E4,0x1E5},{0x1E6,0x1E7},{0x1E8,0x1E9},{0x1EA,0x1EB},{0x1EC,0x1ED},{0x1EE,0x1EF},{0x1F1,0x1F3},{0x1F2,0x1F3},
{0x1F4,0x1F5},{0x1F6,0x195},{0x1F7,0x1BF},{0x1F8,0x1F9},{0x1FA,0x1FB},{0x1FC,0x1FD},{0x1FE,0x1FF},{0x200,0x201},{0x202,0x203},{0x204,0x205},
{0x206,0x207},{0x208,0x209},{0x20A,0x20B},{0x20C,0x20D},{0x20E,0x20F},{0x210,0x211},{0x212,0x213},{0x214,0x215},{0x216,0x217},{0x218,0x219},
{0x21A,0x21B},{0x21C,0x21D},{0x21E,0x21F},{0x220,0x19E},{0x222,0x223},{0x224,0x225},{0x226,0x227},{0x228,0x229},{0x22A,0x22B},{0x22C,0x22D},
{0x22E,0x22F},{0x230,0x231},{0x232,0x233},{0x23A,0x2C65},{0x23B,0x23C},{0x23D,0x19A},{0x23E,0x2C66},{0x241,0x242},{0x243,0x180},{0x244,0x289},
{0x245,0x28C},{0x246,0x247},{0x248,0x249},{0x24A,0x24B},{0x24C,0x24D},{0x24E,0x24F},{0x370,0x371},{0x372,0x373},{0x376,0x377},{0x37F,0x3F3},
{0x386,0x3AC},{0x388,0x3AD},{0x389,0x3AE},{0x38A,0x3AF},{0x38C,0x3CC},{0x38E,0x3CD},{0x38F,0x3CE},{0x391,0x3B1},{0x392,0x3B2},{0x393,0x3B3},
{0x394,0x3B4},{0x395,0x3B5},{0x396,0x3B6},{0x397,0x3B7},{0x398,0x3B8},{0x399,0x3B9},{0x39A,0x3BA},{0x39B,0x3BB},{0x39C,0x3BC},{0x39D,0x3BD},
{0x39E,0x3BE},{0x39F,0x3BF},{0x3A0,0x3C0},{0x3A1,0x3C1},{0x3A3,0x3C3},{0x3A4,0x3C4},{0x3A5,0x3C5},{0x3A6,0x3C6},{0x3A7,0x3C7},{0x3A8,0x3C8},
{0x3A9,0x3C9},{0x3AA,0x3CA},{0x3AB,0x3CB},{0x3CF,0x3D7},{0x3D8,0x3D9},{0x3DA,0x3DB},{0x3DC,0x3DD},{0x3DE,0x3DF},{0x3E0,0x3E1},{0x3E2,0x3E3},
{0x3E4,0x3E5},{0x3E6,0x3E7},{0x3E8,0x3E9},{0x3EA,0x3EB},{0x3EC,0x3ED},{0x3EE,0x3EF},{0x3F4,0x3B8},{0x3F7,0x3F8},{0x3F9,0x3F2},{0x3FA,0x3FB},
{0x3FD,0x37B},{0x3FE,0x37C},{0x3FF,0x37D},{0x400,0x450},{0x401,0x451},{0x402,0x452},{0x403,0x453},{0x404,0x454},{0x405,0x455},{0x406,0x456},
{0x407,0x457},{0x408,0x458},{0x409,0x459},{0x40A,0x45A},{0x40B,0x45B},{0x40C,0x45C},{0x40D,0x45D},{0x40E,0x45E},{0x40F,0x45F},{0x410,0x430},
{0x411,0x431},{0x412,0x432},{0x413,0x433},{0x414,0x434},{0x415,0x435},{0x416,0x436},{0x417,0x437},{0x418,0x438},{0x419,0x439},{0x41A,0x43A},
{0x41B,0x43B},{0x41C,0x43C},{0x41D,0x43D},{0x41E,0x43E},{0x41F,0x43F},{0x420,0x440},{0x421,0x441},{0x422,0x442},{0x423,0x443},{0x424,0x444},
{0x425,0x445},{0x426,0x446},{0x427,0x447},{0x428,0x448},{0x429,0x449},{0x42A,0x44A},{0x42B,0x44B},{0x42C,0x44C},{0x42D,0x44D},{0x42E,0x44E},
{0x42F,0x44F},{0x460,0x461},{0x462,0x463},{0x464,0x465},{0x466,0x467},{0x468,0x469},{0x46A,0x46B},{0x46C,0x46D},{0x46E,0x46F},{0x470,0x471},
{0x472,0x473},{0x474,0x475},{0x476,0x477},{0x478,0x479},{0x47A,0x47B},{0x47C,0x47D},{0x47E,0x47F},{0x480,0x481},{0x48A,0x48B},{0x48C,0x48D},
{0x48E,0x48F},{0x490,0x491},{0x492,0x493},{0x494,0x495},{0x496,0x497},{0x498,0x499},{0x49A,0x49B},{0x49C,0x49D},{0x49E,0x49F},{0x4A0,0x4A1},
{0x4A2,0x4A3},{0x4A4,0x4A5},{0x4A6,0x4A7},{0x4A8,0x4A9},{0x4AA,0x4AB},{0x4AC,0x4AD},{0x4AE,0x4AF},{0x4B0,0x4B1},{0x4B2,0x4B3},{0x4B4,0x4B5},
{0x4B6,0x4B7},{0x4B8,0x4B9},{0x4BA,0x4BB},{0x4BC,0x4BD},{0x4BE,0x4BF},{0x4C0,0x4CF},{0x4C1,0x4C2},{0x4C3,0x4C4},{0x4C5,0x4C6},{0x4C7,0x4C8},
{0x4C9,0x4CA},{0x4CB,0x4CC},{0x4CD,0x4CE},{0x4D0,0x4D1},{0x4D2,0x4D3},{0x4D4,0x4D5},{0x4D6,0x4D7},{0x4D8,0x4D9},{0x4DA,0x4DB},{0x4DC,0x4DD},
{0x4DE,0x4DF},{0x4E0,0x4E1},{0x4E2,0x4E3},{0x4E4,0x4E5},{0x4E6,0x4E7},{0x4E8,0x4E9},{0x4EA,0x4EB},{0x4EC,0x4ED},{0x4EE,0x4EF},{0x4F0,0x4F1},
{0x4F2,0x4F3},{0x4F4,0x4F5},{0x4F6,0x4F7},{0x4F8,0x4F9},{0x4FA,0x4FB},{0x4FC,0x4FD},{0x4FE,0x4FF},{0x500,0x501},{0x502,0x503},{0x504,0x505},
{0x506,0x507},{0x508,0x509},{0x50A,0x50B},{0x50C,0x50D},{0x50E,0x50F},{0x510,0x511},{0x512,0x513},{0x514,0x515},{0x516,0x517},{0x518,0x519},
{0x51A,0x51B},{0x51C,0x51D},{0x51E,0x51F},{0x520,0x521},{0x522,0x523},{0x524,0x525},{0x526,0x527},{0x528,0x529},{0x52A,0x52B},{0x52C,0x52D},
{0x52E,0x52F},{0x531,0x561},{0x532,0x562},{0x533,0x563},{0x534,0x564},{0x535,0x565},{0x536,0x566},{0x537,0x567},{0x538,0x568},{0x539,0x569},
{0x53A,0x56A},{0x53B,0x56B},{0x53C,0x56C},{0x53D,0x56D},{0x53E,0x56E},{0x53F,0x56F},{0x540,0x570},{0x541,0x571},{0x542,0x572},{0x543,0x573},
{0x544,0x574},{0x545,0x575},{0x546,0x576},{0x547,0x577},{0x548,0x578},{0x549,0x579},{0x54A,0x57A},{0x54B,0x57B},{0x54C,0x57C},{0x54D,0x57D},
{0x54E,0x57E},{0x54F,0x57F},{0x550,0x580},{0x551,0x581},{0x552,0x582},{0x553,0x583},{0x554,0x584},{0x555,0x585},{0x556,0x586},{0x10A0,0x2D00},
{0x10A1,0x2D01},{0x10A2,0x2D02},{0x10A3,0x2D03},{0x10A4,0x2D04},{0x10A5,0x2D05},{0x10A6,0x2D06},{0x10A7,0x2D07},{0x10A8,0x2D08},{0x10A9,0x2D09},{0x10AA,0x2D0A},
{0x10AB,0x2D0B},{0x10AC,0x2D0C},{0x10AD,0x2D0D},{0x10AE,0x2D0E},{0x10AF,0x2D0F},{0x10B0,0x2D10},{0x10B1,0x2D11},{0x10B2,0x2D12},{0x10B3,0x2D13},{0x10B4,0x2D14},
{0x10B5,0x2D15},{0x10B6,0x2D16},{0x10B7,0x2D17},{0x10B8,0x2D18},{0x10B9,0x2D19},{0x10BA,0x2D1A},{0x10BB,0x2D1B},{0x10BC,0x2D1C},{0x10BD,0x2D1D},{0x10BE,0x2D1E},
{0x10BF,0x2D1F},{0x10C0,0x2D20},{0x10C1,0x2D21},{0x10C2,0x2D22},{0x10C3,0x2D23},{0x10C4,0x2D24},{0x10C5,0x2D25},{0x10C7,0x2D27},{0x10CD,0x2D2D},{0x13A0,0xAB70},
{0x13A1,0xAB71},{0x13A2,0xAB72},{0x13A3,0xAB73},{0x13A4,0xAB74},{0x13A5,0xAB75},{0x13A6,0xAB76},{0x13A7,0xAB77},{0x13A8,0xAB78},{0x13A9,0xAB79},{0x13AA,0xAB7A},
{0x13AB,0xAB7B},{0x13AC,0xAB7C},{0x13AD,0xAB7D},{0x13AE,0xAB7E},{0x13AF,0xAB7F},{0x13B0,0xAB80},{0x13B1,0xAB81},{0x13B2,0xAB82},{0x13B3,0xAB83},{0x13B4,0xAB84},
{0x13B5,0xAB85},{0x13B6,0xAB86},{0x13B7,0xAB87},{0x13B8,0xAB88},{0x13B9,0xAB89},{0x13BA,0xAB8A},{0x13BB,0xAB8B},{0x13BC,0xAB8C},{0x13BD,0xAB8D},{0x13BE,0xAB8E},
{0x13BF,0xAB8F},{0x13C0,0xAB90},{0x13C1,0xAB91},{0x13C2,0xAB92},{0x13C3,0xAB93},{0x13C4,0xAB94},{0x13C5,0xAB95},{0x13C6,0xAB96},{0x13C7,0xAB97},{0x13C8,0xAB98},
{0x13C9,0xAB99},{0x13CA,0xAB9A},{0x13CB,0xAB9B},{0x13CC,0xAB9C},{0x13CD,0xAB9D},{0x13CE,0xAB9E},{0x13CF,0xAB9F},{0x13D0,0xABA0},{0x13D1,0xABA1},{0x13D2,0xABA2},
{0x13D3,0xABA3},{0x13D4,0xABA4},{0x13D5,0xABA5},{0x13D6,0xABA6},{0x13D7,0xABA7},{0x13D8,0xABA8},{0x13D9,0xABA9},{0x13DA,0xABAA},{0x13DB,0xABAB},{0x13DC,0xABAC},
{0x13DD,0xABAD},{0x13DE,0xABAE},{0x13DF,0xABAF},{0x13E0,0xABB0},{0x13E1,0xABB1},{0x13E2,0xABB2},{0x13E3,0xABB3},{0x13E4,0xABB4},{0x13E5,0xABB5},{0x13E6,0xABB6},
{0x13E7,0xABB7},{0x13E8,0xABB8},{0x13E9,0xABB9},{0x13EA,0xABBA},{0x13EB,0xABBB},{0x13EC,0xABBC},{0x13ED,0xABBD},{0x13EE,0xABBE},{0x13EF,0xABBF},{0x13F0,0x13F8},
{0x13F1,0x13F9},{0x13F2,0x13FA},{0x13F3,0x13FB},{0x13F4,0x13FC},{0x13F5,0x13FD},{0x1C90,0x10D0},{0x1C91,0x10D1},{0x1C92,0x10D2},{0x1C93,0x10D3},{0x1C94,0x10D4},
{0x1C95,0x10D5},{0x1C96,0x10D6},{0x1C97,0x10D7},{0x1C98,0x10D8},{0x1C99,0x10D9},{0x1C9A,0x10DA},{0x1C9B,0x10DB},{0x1C9C,0x10DC},{0x1C9D,0x10DD},{0x1C9E,0x10DE},
{0x1C9F,0x10DF},{0x1CA0,0x10E0},{0x1CA1,0x10E1},{0x1CA2,0x10E2},{0x1CA3,0x10E3},{0x1CA4,0x10E4},{0x1CA5,0x10E5},{0x1CA6,0x10E6},{0x1CA7,0x10E7},{0x1CA8,0x10E8},
{0x1CA9,0x10E9},{0x1CAA,0x10EA},{0x1CAB,0x10EB},{0x1CAC,0x10EC},{0x1CAD,0x10ED},{0x1CAE,0x10EE},{0x1CAF,0x10EF},{0x1CB0,0x10F0},{0x1CB1,0x10F1},{0x1CB2,0x10F2},
{0x1CB3,0x10F3},{0x1CB4,0x10F4},{0x1CB5,0x10F5},{0x1CB6,0x10F6},{0x1CB7,0x10F7},{0x1CB8,0x10F8},{0x1CB9,0x10F9},{0x1CBA,0x10FA},{0x1CBD,0x10FD},{0x1CBE,0x10FE},
{0x1CBF,0x10FF},{0x1E00,0x1E01},{0x1E02,0x1E03},{0x1E04,0x1E05},{0x1E06,0x1E07},{0x1E08,0x1E09},{0x1E0A,0x1E0B},{0x1E0C,0x1E0D},{0x1E0E,0x1E0F},{0x1E10,0x1E11},
{0x1E12,0x1E13},{0x1E14,0x1E15},{0x1E16,0x1E17},{0x1E18,0x1E19},{0x1E1A,0x1E1B},{0x1E1C,0x1E1D},{0x1E1E,0x1E1F},{0x1E20,0x1E21},{0x1E22,0x1E23},{0x1E24,0x1E25},
{0x1E26,0x1E27},{0x1E28,0x1E29},{0x1E2A,0x1E2B},{0x1E2C,0x1E2D},{0x1E2E,0x1E2F},{0x1E30,0x1E31},{0x1E32,0x1E33},{0x1E34,0x1E35},{0x1E36,0x1E37},{0x1E38,0x1E39},
{0x1E3A,0x1E3B},{0x1E3C,0x1E3D},{0x1E3E,0x1E3F},{0x1E40,0x1E41},{0x1E42,0x1E43},{0x1E44,0x1E45},{0x1E46,0x1E47},{0x1E48,0x1E49},{0x1E4A,0x1E4B},{0x1E4C,0x1E4D},
{0x1E4E,0x1E4F},{0x1E50,0x1E51},{0x1E52,0x1E53},{0x1E54,0x1E55},{0x1E56,0x1E57},{0x1E58,0x1E59},{0x1E5A,0x1E5B},{0x1E5C,0x1E5D},{0x1E5E,0x1E5F},{0x1E60,0x1E61},
{0x1E62,0x1E63},{0x1E64,0x1E65},{0x1E66,0x1E67},{0x1E68,0x1E69},{0x1E6A,0x1E6B},{0x1E6C,0x1E6D},{0x1E6E,0x1E6F},{0x1E70,0x1E71},{0x1E72,0x1E73},{0x1E74,0x1E75},
{0x1E76,0x1E77},{0x1E78,0x1E79},{0x1E7A,0x1E7B},{0x1E7C,0x1E7D},{0x1E7E,0x1E7F},{0x1E80,0x1E81},{0x1E82,0x1E83},{0x1E84,0x1E85},{0x1E86,0x1E87},{0x1E88,0x1E89},
{0x1E8A,0x1E8B},{0x1E8C,0x1E8D},{0x1E8E,0x1E8F},{0x1E90,0x1E91},{0x1E92,0x1E93},{0x1E94,0x1E95},{0x1E9E,0xDF},{0x1EA0,0x1EA1},{0x1EA2,0x1EA3},{0x1EA4,0x1EA5},
{0x1EA6,0x1EA7},{0x1EA8,0x1EA9},{0x1EAA,0x1EAB},{0x1EAC,0x1EAD},{0x1EAE,0x1EAF},{0x1EB0,0x1EB1},{0x1EB2,0x1EB3},{0x1EB4,0x1EB5},{0x1EB6,0x1EB7},{0x1EB8,0x1EB9},
{0x1EBA,0x1EBB},{0x1EBC,0x1EBD},{0x1EBE,0x1EBF},{0x1EC0,0x1EC1},{0x1EC2,0x1EC3},{0x1EC4,0x1EC5},{0x1EC6,0x1EC7},{0x1EC8,0x1EC9},{0x1ECA,0x1ECB},{0x1ECC,0x1ECD},
{0x1ECE,0x1ECF},{0x1ED0,0x1ED1},{0x1ED2,0x1ED3},{0x1ED4,0x1ED5},{0x1ED6,0x1ED7},{0x1ED8,0x1ED9},{0x1EDA,0x1EDB},{0x1EDC,0x1EDD},{0x1EDE,0x1EDF},{0x1EE0,0x1EE1},
{0x1EE2,0x1EE3},{0x1EE4,0x1EE5},{0x1EE6,0x1EE7},{0x1EE8,0x1EE9},{0x1EEA,0x1EEB},{0x1EEC,0x1EED},{0x1EEE,0x1EEF},{0x1EF0,0x1EF1},{0x1EF2,0x1EF3},{0x1EF4,0x1EF5},
{0x1EF6,0x1EF7},{0x1EF8,0x1EF9},{0x1EFA,0x1EFB},{0x1EFC,0x1EFD},{0x1EFE,0x1EFF},{0x1F08,0x1F00},{0x1F09,0x1F01},{0x1F0A,0x1F02},{0x1F0B,0x1F03},{0x1F0C,0x1F04},
{0x1F0D,0x1F05},{0x1F0E,0x1F06},{0x1F0F,0x1F07},{0x1F18,0x1F10},{0x1F19,0x1F11},{0x1F1A,0x1F12},{0x1F1B,0x1F13},{0x1F1C,0x1F14},{0x1F1D,0x1F15},{0x1F28,0x1F20},
{0x1F29,0x1F21},{0x1F2A,0x1F22},{0x1F2B,0x1F23},{0x1F2C,0x1F24},{0x1F2D,0x1F25},{0x1F2E,0x1F26},{0x1F2F,0x1F27},{0x1F38,0x1F30},{0x1F39,0x1F31},{0x1F3A,0x1F32},
{0x1F3B,0x1F33},{0x1F3C,0x1F34},{0x1F3D,0x1F35},{0x1F3E,0x1F36},{0x1F3F,0x1F37},{0x1F48,0x1F40},{0x1F49,0x1F41},{0x1F4A,0x1F42},{0x1F4B,0x1F43},{0x1F4C,0x1F44},
{0x1F4D,0x1F45},{0x1F59,0x1F51},{0x1F5B,0x1F53},{0x1F5D,0x1F55},{0x1F5F,0x1F57},{0x1F68,0x1F60},{0x1F69,0x1F61},{0x1F6A,0x1F62},{0x1F6B,0x1F63},{0x1F6C,0x1F64},
{0x1F6D,0x1F65},{0x1F6E,0x1F66},{0x1F6F,0x1F67},{0x1F88,0x1F80},{0x1F89,0x1F81},{0x1F8A,0x1F82},{0x1F8B,0x1F83},{0x1F8C,0x1F84},{0x1F8D,0x1F85},{0x1F8E,0x1F86},
{0x1F8F,0x1F87},{0x1F98,0x1F90},{0x1F99,0x1F91},{0x1F9A,0x1F92},{0x1F9B,0x1F93},{0x1F9C,0x1F94},{0x1F9D,0x1F95},{0x1F9E,0x1F96},{0x1F9F,0x1F97},{0x1FA8,0x1FA0},
{0x1FA9,0x1FA1},{0x1FAA,0x1FA2},{0x1FAB,0x1FA3},{0x1FAC,0x1FA4},{0x1FAD,0x1FA5},{0x1FAE,0x1FA6},{0x1FAF,0x1FA7},{0x1FB8,0x1FB0},{0x1FB9,0x1FB1},{0x1FBA,0x1F70},
{0x1FBB,0x1F71},{0x1FBC,0x1FB3},{0x1FC8,0x1F72},{0x1FC9,0x1F73},{0x1FCA,0x1F74},{0x1FCB,0x1F75},{0x1FCC,0x1FC3},{0x1FD8,0x1FD0},{0x1FD9,0x1FD1},{0x1FDA,0x1F76},
{0x1FDB,0x1F77},{0x1FE8,0x1FE0},{0x1FE9,0x1FE1},{0x1FEA,0x1F7A},{0x1FEB,0x1F7B},{0x1FEC,0x1FE5},{0x1FF8,0x1F78},{0x1FF9,0x1F79},{0x1FFA,0x1F7C},{0x1FFB,0x1F7D},
{0x1FFC,0x1FF3},{0x2126,0x3C9},{0x212A,0x6B},{0x212B,0xE5},{0x2132,0x214E},{0x2160,0x2170},{0x2161,0x2171},{0x2162,0x2172},{0x2163,0x2173},{0x2164,0x2174},
{0x2165,0x2175},{0x2166,0x2176},{0x2167,0x2177},{0x2168,0x2178},{0x2169,0x2179},{0x216A,0x217A},{0x216B,0x217B},{0x216C,0x217C},{0x216D,0x217D},{0x216E,0x217E},
{0x216F,0x217F},{0x2183,0x2184},{0x24B6,0x24D0},{0x24B7,0x24D1},{0x24B8,0x24D2},{0x24B9,0x24D3},{0x24BA,0x24D4},{0x24BB,0x24D5},{0x24BC,0x24D6},{0x24BD,0x24D7},
{0x24BE,0x24D8},{0x24BF,0x24D9},{0x24C0,0x24DA},{0x24C1,0x24DB},{0x24C2,0x24DC},{0x24C3,0x24DD},{0x24C4,0x24DE},{0x24C5,0x24DF},{0x24C6,0x24E0},{0x24C7,0x24E1},
{0x24C8,0x24E2},{0x24C9,0x24E3},{0x24CA,0x24E4},{0x24CB,0x24E5},{0x24CC,0x24E6},{0x24CD,0x24E7},{0x24CE,0x24E8},{0x24CF,0x24E9},{0x2C00,0x2C30},{0x2C01,0x2C31},
{0x2C02,0x2C32},{0x2C03,0x2C33},{0x2C04,0x2C34},{0x2C05,0x2C35},{0x2C06,0x2C36},{0x2C07,0x2C37},{0x2C08,0x2C38},{0x2C09,0x2C39},{0x2C0A,0x2C3A},{0x2C0B,0x2C3B},
{0x2C0C,0x2C3C},{0x2C0D,0x2C3D},{0x2C0E,0x2C3E},{0x2C0F,0x2C3F},{0x2C10,0x2C40},{0x2C11,0x2C41},{0x2C12,0x2C42},{0x2C13,0x2C43},{0x2C14,0x2C44},{0x2C15,0x2C45},
{0x2C16,0x2C46},{0x2C17,0x2C47},{0x2C18,0x2C48},{0x2C19,0x2C49},{0x2C1A,0x2C4A},{0x2C1B,0x2C4B},{0x2C1C,0x2C4C},{0x2C1D,0x2C4D},{0x2C1E,0x2C4E},{0x2C1F,0x2C4F},
{0x2C20,0x2C50},{0x2C21,0x2C51},{0x2C22,0x2C52},{0x2C23,0x2C53},{0x2C24,0x2C54},{0x2C25,0x2C55},{0x2C26,0x2C56},{0x2C27,0x2C57},{0x2C28,0x2C58},{0x2C29,0x2C59},
{0x2C2A,0x2C5A},{0x2C2B,0x2C5B},{0x2C2C,0x2C5C},{0x2C2D,0x2C5D},{0x2C2E,0x2C5E},{0x2C2F,0x2C5F},{0x2C60,0x2C61},{0x2C62,0x26B},{0x2C63,0x1D7D},{0x2C64,0x27D},
{0x2C67,0x2C68},{0x2C69,0x2C6A},{0x2C6B,0x2C6C},{0x2C6D,0x251},{0x2C6E,0x271},{0x2C6F,0x250},{0x2C70,0x252},{0x2C72,0x2C73},{0x2C75,0x2C76},{0x2C7E,0x23F},
{0x2C7F,0x240},{0x2C80,0x2C81},{0x2C82,0x2C83},{0x2C84,0x2C85},{0x2C86,0x2C87},{0x2C88,0x2C89},{0x2C8A,0x2C8B},{0x2C8C,0x2C8D},{0x2C8E,0x2C8F},{0x2C90,0x2C91},
{0x2C92,0x2C93},{0x2C94,0x2C95},{0x2C96,0x2C97},{0x2C98,0x2C99},{0x2C9A,0x2C9B},{0x2C9C,0x2C9D},{0x2C9E,0x2C9F},{0x2CA0,0x2CA1},{0x2CA2,0x2CA3},{0x2CA4,0x2CA5},
{0x2CA6,0x2CA7},{0x2CA8,0x2CA9},{0x2CAA,0x2CAB},{0x2CAC,0x2CAD},{0x2CAE,0x2CAF},{0x2CB0,0x2CB1},{0x2CB2,0x2CB3},{0x2CB4,0x2CB5},{0x2CB6,0x2CB7},{0x2CB8,0x2CB9},
{0x2CBA,0x2CBB},{0x2CBC,0x2CBD},{0x2CBE,0x2CBF},{0x2CC0,0x2CC1},{0x2CC2,0x2CC3},{0x2CC4,0x2CC5},{0x2CC6,0x2CC7},{0x2CC8,0x2CC9},{0x2CCA,0x2CCB},{0x2CCC,0x2CCD},
{0x2CCE,0x2CCF},{0x2CD0,0x2CD1},{0x2CD2,0x2CD3},{0x2CD4,0x2CD5},{0x2CD6,0x2CD7},{0x2CD8,0x2CD9},{0x2CDA,0x2CDB},{0x2CDC,0x2CDD},{0x2CDE,0x2CDF},{0x2CE0,0x2CE1},
{0x2CE2,0x2CE3},{0x2CEB,0x2CEC},{0x2CED,0x2CEE},{0x2CF2,0x2CF3},{0xA640,0xA641},{0xA642,0xA643},{0xA644,0xA645},{0xA646,0xA647},{0xA648,0xA649},{0xA64A,0xA64B},
{0xA64C,0xA64D},{0xA64E,0xA64F},{0xA650,0xA651},{0xA652,0xA653},{0xA654,0xA655},{0xA656,0xA657},{0xA658,0xA659},{0xA65A,0xA65B},{0xA65C,0xA65D},{0xA65E,0xA65F},
{0xA660,0xA661},{0xA662,0xA663},{0xA664,0xA665},{0xA666,0xA667},{0xA668,0xA669},{0xA66A,0xA66B},{0xA66C,0xA66D},{0xA680,0xA681},{0xA682,0xA683},{0xA684,0xA685},
{0xA686,0xA687},{0xA688,0xA689},{0xA68A,0xA68B},{0xA68C,0xA68D},{0xA68E,0xA68F},{0xA690,0xA691},{0xA692,0xA693},{0xA694,0xA695},{0xA696,0xA697},{0xA698,0xA699},
{0xA69A,0xA69B},{0xA722,0xA723},{0xA724,0xA725},{0xA726,0xA727},{0xA728,0xA729},{0xA72A,0xA72B},{0xA72C,0xA72D},{0xA72E,0xA72F},{0xA732,0xA733},{0xA734,0xA735},
{0xA736,0xA737},{0xA738,0xA739},{0xA73A,0xA73B},{0xA73C,0xA73D},{0xA73E,0xA73F},{0xA740,0xA741},{0xA742,0xA743},{0xA744,0xA745},{0xA746,0xA747},{0xA748,0xA749},
{0xA74A,0xA74B},{0xA74C,0xA74D},{0xA74E,0xA74F},{0xA750,0xA751},{0xA752,0xA753},{0xA754,0xA755},{0xA756,0xA757},{0xA758,0xA759},{0xA75A,0xA75B},{0xA75C,0xA75D},
{0xA75E,0xA75F},{0xA760,0xA761},{0xA762,0xA763},{0xA764,0xA765},{0xA766,0xA767},{0xA768,0xA769},{0xA76A,0xA76B},{0xA76C,0xA76D},{0xA76E,0xA76F},{0xA779,0xA77A},
{0xA77B,0xA77C},{0xA77D,0x1D79},{0xA77E,0xA77F},{0xA780,0xA781},{0xA782,0xA783},{0xA784,0xA785},{0xA786,0xA787},{0xA78B,0xA78C},{0xA78D,0x265},{0xA790,0xA791},
{0xA792,0xA793},{0xA796,0xA797},{0xA798,0xA799},{0xA79A,0xA79B},{0xA79C,0xA79D},{0xA79E,0xA79F},{0xA7A0,0xA7A1},{0xA7A2,0xA7A3},{0xA7A4,0xA7A5},{0xA7A6,0xA7A7},
{0xA7A8,0xA7A9},{0xA7AA,0x266},{0xA7AB,0x25C},{0xA7AC,0x261},{0xA7AD,0x26C},{0xA7AE,0x26A},{0xA7B0,0x29E},{0xA7B1,0x287},{0xA7B2,0x29D},{0xA7B3,0xAB53},
{0xA7B4,0xA7B5},{0xA7B6,0xA7B7},{0xA7B8,0xA7B9},{0xA7BA,0xA7BB},{0xA7BC,0xA7BD},{0xA7BE,0xA7BF},{0xA7C0,0xA7C1},{0xA7C2,0xA7C3},{0xA7C4,0xA794},{0xA7C5,0x282},
{0xA7C6,0x1D8E},{0xA7C7,0xA7C8},{0xA7C9,0xA7CA},{0xA7D0,0xA7D1},{0xA7D6,0xA7D7},{0xA7D8,0xA7D9},{0xA7F5,0xA7F6},{0xFF21,0xFF41},{0xFF22,0xFF42},{0xFF23,0xFF43},
{0xFF24,0xFF44},{0xFF25,0xFF45},{0xFF26,0xFF46},{0xFF27,0xFF47},{0xFF28,0xFF48},{0xFF29,0xFF49},{0xFF2A,0xFF4A},{0xFF2B,0xFF4B},{0xFF2C,0xFF4C},{0xFF2D,0xFF4D},
{0xFF2E,0xFF4E},{0xFF2F,0xFF4F},{0xFF30,0xFF50},{0xFF31,0xFF51},{0xFF32,0xFF52},{0xFF33,0xFF53},{0xFF34,0xFF54},{0xFF35,0xFF55},{0xFF36,0xFF56},{0xFF37,0xFF57},
{0xFF38,0xFF58},{0xFF39,0xFF59},{0xFF3A,0xFF5A},{0x10400,0x10428},{0x10401,0x10429},{0x10402,0x1042A},{0x10403,0x1042B},{0x10404,0x1042C},{0x10405,0x1042D},{0x10406,0x1042E},
{0x10407,0x1042F},{0x10408,0x10430},{0x10409,0x10431},{0x1040A,0x10432},{0x1040B,0x10433},{0x1040C,0x10434},{0x1040D,0x10435},{0x1040E,0x10436},{0x1040F,0x10437},{0x10410,0x10438},
{0x10411,0x10439},{0x10412,0x1043A},{0x10413,0x1043B},{0x10414,0x1043C},{0x10415,0x1043D},{0x10416,0x1043E},{0x10417,0x1043F},{0x10418,0x10440},{0x10419,0x10441},{0x1041A,0x10442},
{0x1041B,0x10443},{0x1041C,0x10444},{0x1041D,0x10445},{0x1041E,0x10446},{0x1041F,0x10447},{0x10420,0x10448},{0x10421,0x10449},{0x10422,0x1044A},{0x10423,0x1044B},{0x10424,0x1044C},
{0x10425,0x1044D},{0x10426,0x1044E},{0x10427,0x1044F},{0x104B0,0x104D8},{0x104B1,0x104D9},{0x104B2,0x104DA},{0x104B3,0x104DB},{0x104B4,0x104DC},{0x104B5,0x104DD},{0x104B6,0x104DE},
{0x104B7,0x104DF},{0x104B8,0x104E0},{0x104B9,0x104E1},{0x104BA,0x104E2},{0x104BB,0x104E3},{0x104BC,0x104E4},{0x104BD,0x104E5},{0x104BE,0x104E6},{0x104BF,0x104E7},{0x104C0,0x104E8},
{0x104C1,0x104E9},{0x104C2,0x104EA},{0x104C3,0x104EB},{0x104C4,0x104EC},{0x104C5,0x104ED},{0x104C6,0x104EE},{0x104C7,0x104EF},{0x104C8,0x104F0},{0x104C9,0x104F1},{0x104CA,0x104F2},
{0x104CB,0x104F3},{0x104CC,0x104F4},{0x104CD,0x104F5},{0x104CE,0x104F6},{0x104CF,0x104F7},{0x104D0,0x104F8},{0x104D1,0x104F9},{0x104D2,0x104FA},{0x104D3,0x104FB},{0x10570,0x10597},
{0x10571,0x10598},{0x10572,0x10599},{0x10573,0x1059A},{0x10574,0x1059B},{0x10575,0x1059C},{0x10576,0x1059D},{0x10577,0x1059E},{0x10578,0x1059F},{0x10579,0x105A0},{0x1057A,0x105A1},
{0x1057C,0x105A3},{0x1057D,0x105A4},{0x1057E,0x105A5},{0x1057F,0x105A6},{0x10580,0x105A7},{0x10581,0x105A8},{0x10582,0x105A9},{0x10583,0x105AA},{0x10584,0x105AB},{0x10585,0x105AC},
{0x10586,0x105AD},{0x10587,0x105AE},{0x10588,0x105AF},{0x10589,0x105B0},{0x1058A,0x105B1},{0x1058C,0x105B3},{0x1058D,0x105B4},{0x1058E,0x105B5},{0x1058F,0x105B6},{0x10590,0x105B7},
{0x10591,0x105B8},{0x10592,0x105B9},{0x10594,0x105BB},{0x10595,0x105BC},{0x10C80,0x10CC0},{0x10C81,0x10CC1},{0x10C82,0x10CC2},{0x10C83,0x10CC3},{0x10C84,0x10CC4},{0x10C85,0x10CC5},
{0x10C86,0x10CC6},{0x10C87,0x10CC7},{0x10C88,0x10CC8},{0x10C89,0x10CC9},{0x10C8A,0x10CCA},{0x10C8B,0x10CCB},{0x10C8C,0x10CCC},{0x10C8D,0x10CCD},{0x10C8E,0x10CCE},{0x10C8F,0x10CCF},
{0x10C90,0x10CD0},{0x10C91,0x10CD1},{0x10C92,0x10CD2},{0x10C93,0x10CD3},{0x10C94,0x10CD4},{0x10C95,0x10CD5},{0x10C96,0x10CD6},{0x10C97,0x10CD7},{0x10C98,0x10CD8},{0x10C99,0x10CD9},
{0x10C9A,0x10CDA},{0x10C9B,0x10CDB},{0x10C9C,0x10CDC},{0x10C9D,0x10CDD},{0x10C9E,0x10CDE},{0x10C9F,0x10CDF},{0x10CA0,0x10CE0},{0x10CA1,0x10CE1},{0x10CA2,0x10CE2},{0x10CA3,0x10CE3},
{0x10CA4,0x10CE4},{0x10CA5,0x10CE5},{0x10CA6,0x10CE6},{0x10CA7,0x10CE7},{0x10CA8,0x10CE8},{0x10CA9,0x10CE9},{0x10CAA,0x10CEA},{0x10CAB,0x10CEB},{0x10CAC,0x10CEC},{0x10CAD,0x10CED},
{0x10CAE,0x10CEE},{0x10CAF,0x10CEF},{0x10CB0,0x10CF0},{0x10CB1,0x10CF1},{0x10CB2,0x10CF2},{0x118A0,0x118C0},{0x118A1,0x118C1},{0x118A2,0x118C2},{0x118A3,0x118C3},{0x118A4,0x118C4},
{0x118A5,0x118C5},{0x118A6,0x118C6},{0x118A7,0x118C7},{0x118A8,0x118C8},{0x118A9,0x118C9},{0x118AA,0x118CA},{0x118AB,0x118CB},{0x118AC,0x118CC},{0x118AD,0x118CD},{0x118AE,0x118CE},
{0x118AF,0x118CF},{0x118B0,0x118D0},{0x118B1,0x118D1},{0x118B2,0x118D2},{0x118B3,0x118D3},{0x118B4,0x118D4},{0x118B5,0x118D5},{0x118B6,0x118D6},{0x118B7,0x118D7},{0x118B8,0x118D8},
{0x118B9,0x118D9},{0x118BA,0x118DA},{0x118BB,0x118DB},{0x118BC,0x118DC},{0x118BD,0x118DD},{0x118BE,0x118DE},{0x118BF,0x118DF},{0x16E40,0x16E60},{0x16E41,0x16E61},{0x16E42,0x16E62},
{0x16E43,0x16E63},{0x16E44,0x16E64},{0x16E45,0x16E65},{0x16E46,0x16E66},{0x16E47,0x16E67},{0x16E48,0x16E68},{0x16E49,0x16E69},{0x16E4A,0x16E6A},{0x16E4B,0x16E6B},{0x16E4C,0x16E6C},
{0x16E4D,0x16E6D},{0x16E4E,0x16E6E},{0x16E4F,0x16E6F},{0x16E50,0x16E70},{0x16E51,0x16E71},{0x16E52,0x16E72},{0x16E53,0x16E73},{0x16E54,0x16E74},{0x16E55,0x16E75},{0x16E56,0x16E76},
{0x16E57,0x16E77},{0x16E58,0x16E78},{0x16E59,0x16E79},{0x16E5A,0x16E7A},{0x16E5B,0x16E7B},{0x16E5C,0x16E7C},{0x16E5D,0x16E7D},{0x16E5E,0x16E7E},{0x16E5F,0x16E7F},{0x1E900,0x1E922},
{0x1E901,0x1E923},{0x1E902,0x1E924},{0x1E903,0x1E925},{0x1E904,0x1E926},{0x1E905,0x1E927},{0x1E906,0x1E928},{0x1E907,0x1E929},{0x1E908,0x1E92A},{0x1E909,0x1E92B},{0x1E90A,0x1E92C},
{0x1E90B,0x1E92D},{0x1E90C,0x1E92E},{0x1E90D,0x1E92F},{0x1E90E,0x1E930},{0x1E90F,0x1E931},{0x1E910,0x1E932},{0x1E911,0x1E933},{0x1E912,0x1E934},{0x1E913,0x1E935},{0x1E914,0x1E936},
{0x1E915,0x1E937},{0x1E916,0x1E938},{0x1E917,0x1E939},{0x1E918,0x1E93A},{0x1E919,0x1E93B},{0x1E91A,0x1E93C},{0x1E91B,0x1E93D},{0x1E91C,0x1E93E},{0x1E91D,0x1E93F},{0x1E91E,0x1E940},
{0x1E91F,0x1E941},{0x1E920,0x1E942},{0x1E921,0x1E943},
};
static const uint32_t uni_title[][2] = {
{0x61,0x41},{0x62,0x42},{0x63,0x43},{0x64,0x44},{0x65,0x45},{0x66,0x46},{0x67,0x47},{0x68,0x48},{0x69,0x49},{0x6A,0x4A},
{0x6B,0x4B},{0x6C,0x4C},{0x6D,0x4D},{0x6E,0x4E},{0x6F,0x4F},{0x70,0x50},{0x71,0x51},{0x72,0x52},{0x73,0x53},{0x74,0x54},
{0x75,0x55},{0x76,0x56},{0x77,0x57},{0x78,0x58},{0x79,0x59},{0x7A,0x5A},{0xB5,0x39C},{0xE0,0xC0},{0xE1,0xC1},{0xE2,0xC2},
{0xE3,0xC3},{0xE4,0xC4},{0xE5,0xC5},{0xE6,0xC6},{0xE7,0xC7},{0xE8,0xC8},{0xE9,0xC9},{0xEA,0xCA},{0xEB,0xCB},{0xEC,0xCC},
{0xED,0xCD},{0xEE,0xCE},{0xEF,0xCF},{0xF0,0xD0},{0xF1,0xD1},{0xF2,0xD2},{0xF3,0xD3},{0xF4,0xD4},{0xF5,0xD5},{0xF6,0xD6},
{0xF8,0xD8},{0xF9,0xD9},{0xFA,0xDA},{0xFB,0xDB},{0xFC,0xDC},{0xFD,0xDD},{0xFE,0xDE},{0xFF,0x178},{0x101,0x100},{0x103,0x102},
{0x105,0x104},{0x107,0x106},{0x109,0x108},{0x10B,0x10A},{0x10D,0x10C},{0x10F,0x10E},{0x111,0x110},{0x113,0x112},{0x115,0x114},{0x117,0x116},
{0x119,0x118},{0x11B,0x11A},{0x11D,0x11C},{0x11F,0x11E},{0x121,0x120},{0x123,0x122},{0x125,0x124},{0x127,0x126},{0x129,0x128},{0x12B,0x12A},
{0x12D,0x12C},{0x12F,0x12E},{0x131,0x49},{0x133,0x132},{0x135,0x134},{0x137,0x136},{0x13A,0x139},{0x13C,0x13B},{0x13E,0x13D},{0x140,0x13F},
{0x142,0x141},{0x144,0x143},{0x146,0x145},{0x148,0x147},{0x14B,0x14A},{0x14D,0x14C},{0x14F,0x14E},{0x151,0x150},{0x153,0x152},{0x155,0x154},
{0x157,0x156},{0x159,0x158},{0x15B,0x15A},{0x15D,0x15C},{0x15F,0x15E},{0x161,0x160},{0x163,0x162},{0x165,0x164},{0x167,0x166},{0x169,0x168},
{0x16B,0x16A},{0x16D,0x16C},{0x16F,0x16E},{0x171,0x170},{0x173,0x172},{0x175,0x174},{0x177,0x176},{0x17A,0x179},{0x17C,0x17B},{0x17E,0x17D},
{0x17F,0x53},{0x180,0x243},{0x183,0x182},{0x185,0x184},{0x188,0x187},{0x18C,0x18B},{0x192,0x191},{0x195,0x1F6},{0x199,0x198},{0x19A,0x23D},
{0x19E,0x220},{0x1A1,0x1A0},{0x1A3,0x1A2},{0x1A5,0x1A4},{0x1A8,0x1A7},{0x1AD,0x1AC},{0x1B0,0x1AF},{0x1B4,0x1B3},{0x1B6,0x1B5},{0x1B9,0x1B8},
{0x1BD,0x1BC},{0x1BF,0x1F7},{0x1C4,0x1C5},{0x1C6,0x1C5},{0x1C7,0x1C8},{0x1C9,0x1C8},{0x1CA,0x1CB},{0x1CC,0x1CB},{0x1CE,0x1CD},{0x1D0,0x1CF},
{0x1D2,0x1D1},{0x1D4,0x1D3},{0x1D6,0x1D5},{0x1D8,0x1D7},{0x1DA,0x1D9},{0x1DC,0x1DB},{0x1DD,0x18E},{0x1DF,0x1DE},{0x1E1,0x1E0},{0x1E3,0x1E2},
{0x1E5,0x1E4},{0x1E7,0x1E6},{0x1E9,0x1E8},{0x1EB,0x1EA},{0x1ED,0x1EC},{0x1EF,0x1EE},{0x1F1,0x1F2},{0x1F3,0x1F2},{0x1F5,0x1F4},{0x1F9,0x1F8},
{0x1FB,0x1FA},{0x1FD,0x1FC},{0x1FF,0x1FE},{0x201,0x200},{0x203,0x202},{0x205,0x204},{0x207,0x206},{0x209,0x208},{0x20B,0x20A},{0x20D,0x20C},
{0x20F,0x20E},{0x211,0x210},{0x213,0x212},{0x215,0x214},{0x217,0x216},{0x219,0x218},{0x21B,0x21A},{0x21D,0x21C},{0x21F,0x21E},{0x223,0x222},
{0x225,0x224},{0x227,0x226},{0x229,0x228},{0x22B,0x22A},{0x22D,0x22C},{0x22F,0x22E},{0x231,0x230},{0x233,0x232},{0x23C,0x23B},{0x23F,0x2C7E},
{0x240,0x2C7F},{0x242,0x241},{0x247,0x246},{0x249,0x248},{0x24B,0x24A},{0x24D,0x24C},{0x24F,0x24E},{0x250,0x2C6F},{0x251,0x2C6D},{0x252,0x2C70},
{0x253,0x181},{0x254,0x186},{0x256,0x189},{0x257,0x18A},{0x259,0x18F},{0x25B,0x190},{0x25C,0xA7AB},{0x260,0x193},{0x261,0xA7AC},{0x263,0x194},
{0x265,0xA78D},{0x266,0xA7AA},{0x268,0x197},{0x269,0x196},{0x26A,0xA7AE},{0x26B,0x2C62},{0x26C,0xA7AD},{0x26F,0x19C},{0x271,0x2C6E},{0x272,0x19D},
{0x275,0x19F},{0x27D,0x2C64},{0x280,0x1A6},{0x282,0xA7C5},{0x283,0x1A9},{0x287,0xA7B1},{0x288,0x1AE},{0x289,0x244},{0x28A,0x1B1},{0x28B,0x1B2},
{0x28C,0x245},{0x292,0x1B7},{0x29D,0xA7B2},{0x29E,0xA7B0},{0x345,0x399},{0x371,0x370},{0x373,0x372},{0x377,0x376},{0x37B,0x3FD},{0x37C,0x3FE},
{0x37D,0x3FF},{0x3AC,0x386},{0x3AD,0x388},{0x3AE,0x389},{0x3AF,0x38A},{0x3B1,0x391},{0x3B2,0x392},{0x3B3,0x393},{0x3B4,0x394},{0x3B5,0x395},
{0x3B6,0x396},{0x3B7,0x397},{0x3B8,0x398},{0x3B9,0x399},{0x3BA,0x39A},{0x3BB,0x39B},{0x3BC,0x39C},{0x3BD,0x39D},{0x3BE,0x39E},{0x3BF,0x39F},
{0x3C0,0x3A0},{0x3C1,0x3A1},{0x3C2,0x3A3},{0x3C3,0x3A3},{0x3C4,0x3A4},{0x3C5,0x3A5},{0x3C6,0x3A6},{0x3C7,0x3A7},{0x3C8,0x3A8},{0x3C9,0x3A9},
{0x3CA,0x3AA},{0x3CB,0x3AB},{0x3CC,0x38C},{0x3CD,0x38E},{0x3CE,0x38F},{0x3D0,0x392},{0x3D1,0x398},{0x3D5,0x3A6},{0x3D6,0x3A0},{0x3D7,0x3CF},
{0x3D9,0x3D8},{0x3DB,0x3DA},{0x3DD,0x3DC},{0x3DF,0x3DE},{0x3E1,0x3E0},{0x3E3,0x3E2},{0x3E5,0x3E4},{0x3E7,0x3E6},{0x3E9,0x3E8},{0x3EB,0x3EA},
{0x3ED,0x3EC},{0x3EF,0x3EE},{0x3F0,0x39A},{0x3F1,0x3A1},{0x3F2,0x3F9},{0x3F3,0x37F},{0x3F5,0x395},{0x3F8,0x3F7},{0x3FB,0x3FA},{0x430,0x410},
{0x431,0x411},{0x432,0x412},{0x433,0x413},{0x434,0x414},{0x435,0x415},{0x436,0x416},{0x437,0x417},{0x438,0x418},{0x439,0x419},{0x43A,0x41A},
{0x43B,0x41B},{0x43C,0x41C},{0x43D,0x41D},{0x43E,0x41E},{0x43F,0x41F},{0x440,0x420},{0x441,0x421},{0x442,0x422},{0x443,0x423},{0x444,0x424},
{0x445,0x425},{0x446,0x426},{0x447,0x427},{0x448,0x428},{0x449,0x429},{0x44A,0x42A},{0x44B,0x42B},{0x44C,0x42C},{0x44D,0x42D},{0x44E,0x42E},
{0x44F,0x42F},{0x450,0x400},{0x451,0x401},{0x452,0x402},{0x453,0x403},{0x454,0x404},{0x455,0x405},{0x456,0x406},{0x457,0x407},{0x458,0x408},
{0x459,0x409},{0x45A,0x40A},{0x45B,0x40B},{0x45C,0x40C},{0x45D,0x40D},{0x45E,0x40E},{0x45F,0x40F},{0x461,0x460},{0x463,0x462},{0x465,0x464},
{0x467,0x466},{0x469,0x468},{0x46B,0x46A},{0x46D,0x46C},{0x46F,0x46E},{0x471,0x470},{0x473,0x472},{0x475,0x474},{0x477,0x476},{0x479,0x478},
{0x47B,0x47A},{0x47D,0x47C},{0x47F,0x47E},{0x481,0x480},{0x48B,0x48A},{0x48D,0x48C},{0x48F,0x48E},{0x491,0x490},{0x493,0x492},{0x495,0x494},
{0x497,0x496},{0x499,0x498},{0x49B,0x49A},{0x49D,0x49C},{0x49F,0x49E},{0x4A1,0x4A0},{0x4A3,0x4A2},{0x4A5,0x4A4},{0x4A7,0x4A6},{0x4A9,0x4A8},
{0x4AB,0x4AA},{0x4AD,0x4AC},{0x4AF,0x4AE},{0x4B1,0x4B0},{0x4B3,0x4B2},{0x4B5,0x4B4},{0x4B7,0x4B6},{0x4B9,0x4B8},{0x4BB,0x4BA},{0x4BD,0x4BC},
{0x4BF,0x4BE},{0x4C2,0x4C1},{0x4C4,0x4C3},{0x4C6,0x4C5},{0x4C8,0x4C7},{0x4CA,0x4C9},{0x4CC,0x4CB},{0x4CE,0x4CD},{0x4CF,0x4C0},{0x4D1,0x4D0},
{0x4D3,0x4D2},{0x4D5,0x4D4},{0x4D7,0x4D6},{0x4D9,0x4D8},{0x4DB,0x4DA},{0x4DD,0x4DC},{0x4DF,0x4DE},{0x4E1,0x4E0},{0x4E3,0x4E2},{0x4E5,0x4E4},
{0x4E7,0x4E6},{0x4E9,0x4E8},{0x4EB,0x4EA},{0x4ED,0x4EC},{0x4EF,0x4EE},{0x4F1,0x4F0},{0x4F3,0x4F2},{0x4F5,0x4F4},{0x4F7,0x4F6},{0x4F9,0x4F8},
{0x4FB,0x4FA},{0x4FD,0x4FC},{0x4FF,0x4FE},{0x501,0x500},{0x503,0x502},{0x505,0x504},{0x507,0x506},{0x509,0x508},{0x50B,0x50A},{0x50D,0x50C},
{0x50F,0x50E},{0x511,0x510},{0x513,0x512},{0x515,0x514},{0x517,0x516},{0x519,0x518},{0x51B,0x51A},{0x51D,0x51C},{0x51F,0x51E},{0x521,0x520},
{0x523,0x522},{0x525,0x524},{0x527,0x526},{0x529,0x528},{0x52B,0x52A},{0x52D,0x52C},{0x52F,0x52E},{0x561,0x531},{0x562,0x532},{0x563,0x533},
{0x564,0x534},{0x565,0x535},{0x566,0x536},{0x567,0x537},{0x568,0x538},{0x569,0x539},{0x56A,0x53A},{0x56B,0x53B},{0x56C,0x53C},{0x56D,0x53D},
{0x56E,0x53E},{0x56F,0x53F},{0x570,0x540},{0x571,0x541},{0x572,0x542},{0x573,0x543},{0x574,0x544},{0x575,0x545},{0x576,0x546},{0x577,0x547},
{0x578,0x548},{0x579,0x549},{0x57A,0x54A},{0x57B,0x54B},{0x57C,0x54C},{0x57D,0x54D},{0x57E,0x54E},{0x57F,0x54F},{0x580,0x550},{0x581,0x551},
{0x582,0x552},{0x583,0x553},{0x584,0x554},{0x585,0x555},{0x586,0x556},{0x13F8,0x13F0},{0x13F9,0x13F1},{0x13FA,0x13F2},{0x13FB,0x13F3},{0x13FC,0x13F4},
{0x13FD,0x13F5},{0x1C80,0x412},{0x1C81,0x414},{0x1C82,0x41E},{0x1C83,0x421},{0x1C84,0x422},{0x1C85,0x422},{0x1C86,0x42A},{0x1C87,0x462},{0x1C88,0xA64A},
{0x1D79,0xA77D},{0x1D7D,0x2C63},{0x1D8E,0xA7C6},{0x1E01,0x1E00},{0x1E03,0x1E02},{0x1E05,0x1E04},{0x1E07,0x1E06},{0x1E09,0x1E08},{0x1E0B,0x1E0A},{0x1E0D,0x1E0C},
{0x1E0F,0x1E0E},{0x1E11,0x1E10},{0x1E13,0x1E12},{0x1E15,0x1E14},{0x1E17,0x1E16},{0x1E19,0x1E18},{0x1E1B,0x1E1A},{0x1E1D,0x1E1C},{0x1E1F,0x1E1E},{0x1E21,0x1E20},
{0x1E23,0x1E22},{0x1E25,0x1E24},{0x1E27,0x1E26},{0x1E29,0x1E28},{0x1E2B,0x1E2A},{0x1E2D,0x1E2C},{0x1E2F,0x1E2E},{0x1E31,0x1E30},{0x1E33,0x1E32},{0x1E35,0x1E34},
{0x1E37,0x1E36},{0x1E39,0x1E38},{0x1E3B,0x1E3A},{0x1E3D,0x1E3C},{0x1E3F,0x1E3E},{0x1E41,0x1E40},{0x1E43,0x1E42},{0x1E45,0x1E44},{0x1E47,0x1E46},{0x1E49,0x1E48},
{0x1E4B,0x1E4A},{0x1E4D,0x1E4C},{0x1E4F,0x1E4E},{0x1E51,0x1E50},{0x1E53,0x1E52},{0x1E55,0x1E54},{0x1E57,0x1E56},{0x1E59,0x1E58},{0x1E5B,0x1E5A},{0x1E5D,0x1E5C},
{0x1E5F,0x1E5E},{0x1E61,0x1E60},{0x1E63,0x1E62},{0x1E65,0x1E64},{0x1E67,0x1E66},{0x1E69,0x1E68},{0x1E6B,0x1E6A},{0x1E6D,0x1E6C},{0x1E6F,0x1E6E},{0x1E71,0x1E70},
{0x1E73,0x1E72},{0x1E75,0x1E74},{0x1E77,0x1E76},{0x1E79,0x1E78},{0x1E7B,0x1E7A},{0x1E7D,0x1E7C},{0x1E7F,0x1E7E},{0x1E81,0x1E80},{0x1E83,0x1E82},{0x1E85,0x1E84},
{0x1E87,0x1E86},{0x1E89,0x1E88},{0x1E8B,0x1E8A},{0x1E8D,0x1E8C},{0x1E8F,0x1E8E},{0x1E91,0x1E90},{0x1E93,0x1E92},{0x1E95,0x1E94},{0x1E9B,0x1E60},{0x1EA1,0x1EA0},
{0x1EA3,0x1EA2},{0x1EA5,0x1EA4},{0x1EA7,0x1EA6},{0x1EA9,0x1EA8},{0x1EAB,0x1EAA},{0x1EAD,0x1EAC},{0x1EAF,0x1EAE},{0x1EB1,0x1EB0},{0x1EB3,0x1EB2},{0x1EB5,0x1EB4},
{0x1EB7,0x1EB6},{0x1EB9,0x1EB8},{0x1EBB,0x1EBA},{0x1EBD,0x1EBC},{0x1EBF,0x1EBE},{0x1EC1,0x1EC0},{0x1EC3,0x1EC2},{0x1EC5,0x1EC4},{0x1EC7,0x1EC6},{0x1EC9,0x1EC8},
{0x1ECB,0x1ECA},{0x1ECD,0x1ECC},{0x1ECF,0x1ECE},{0x1ED1,0x1ED0},{0x1ED3,0x1ED2},{0x1ED5,0x1ED4},{0x1ED7,0x1ED6},{0x1ED9,0x1ED8},{0x1EDB,0x1EDA},{0x1EDD,0x1EDC},
{0x1EDF,0x1EDE},{0x1EE1,0x1EE0},{0x1EE3,0x1EE2},{0x1EE5,0x1EE4},{0x1EE7,0x1EE6},{0x1EE9,0x1EE8},{0x1EEB,0x1EEA},{0x1EED,0x1EEC},{0x1EEF,0x1EEE},{0x1EF1,0x1EF0},
{0x1EF3,0x1EF2},{0x1EF5,0x1EF4},{0x1EF7,0x1EF6},{0x1EF9,0x1EF8},{0x1EFB,0x1EFA},{0x1EFD,0x1EFC},{0x1EFF,0x1EFE},{0x1F00,0x1F08},{0x1F01,0x1F09},{0x1F02,0x1F0A},
{0x1F03,0x1F0B},{0x1F04,0x1F0C},{0x1F05,0x1F0D},{0x1F06,0x1F0E},{0x1F07,0x1F0F},{0x1F10,0x1F18},{0x1F11,0x1F19},{0x1F12,0x1F1A},{0x1F13,0x1F1B},{0x1F14,0x1F1C},
{0x1F15,0x1F1D},{0x1F20,0x1F28},{0x1F21,0x1F29},{0x1F22,0x1F2A},{0x1F23,0x1F2B},{0x1F24,0x1F2C},{0x1F25,0x1F2D},{0x1F26,0x1F2E},{0x1F27,0x1F2F},{0x1F30,0x1F38},
{0x1F31,0x1F39},{0x1F32,0x1F3A},{0x1F33,0x1F3B},{0x1F34,0x1F3C},{0x1F35,0x1F3D},{0x1F36,0x1F3E},{0x1F37,0x1F3F},{0x1F40,0x1F48},{0x1F41,0x1F49},{0x1F42,0x1F4A},
{0x1F43,0x1F4B},{0x1F44,0x1F4C},{0x1F45,0x1F4D},{0x1F51,0x1F59},{0x1F53,0x1F5B},{0x1F55,0x1F5D},{0x1F57,0x1F5F},{0x1F60,0x1F68},{0x1F61,0x1F69},{0x1F62,0x1F6A},
{0x1F63,0x1F6B},{0x1F64,0x1F6C},{0x1F65,0x1F6D},{0x1F66,0x1F6E},{0x1F67,0x1F6F},{0x1F70,0x1FBA},{0x1F71,0x1FBB},{0x1F72,0x1FC8},{0x1F73,0x1FC9},{0x1F74,0x1FCA},
{0x1F75,0x1FCB},{0x1F76,0x1FDA},{0x1F77,0x1FDB},{0x1F78,0x1FF8},{0x1F79,0x1FF9},{0x1F7A,0x1FEA},{0x1F7B,0x1FEB},{0x1F7C,0x1FFA},{0x1F7D,0x1FFB},{0x1F80,0x1F88},
{0x1F81,0x1F89},{0x1F82,0x1F8A},{0x1F83,0x1F8B},{0x1F84,0x1F8C},{0x1F85,0x1F8D},{0x1F86,0x1F8E},{0x1F87,0x1F8F},{0x1F90,0x1F98},{0x1F91,0x1F99},{0x1F92,0x1F9A},
{0x1F93,0x1F9B},{0x1F94,0x1F9C},{0x1F95,0x1F9D},{0x1F96,0x1F9E},{0x1F97,0x1F9F},{0x1FA0,0x1FA8},{0x1FA1,0x1FA9},{0x1FA2,0x1FAA},{0x1FA3,0x1FAB},{0x1FA4,0x1FAC},
{0x1FA5,0x1FAD},{0x1FA6,0x1FAE},{0x1FA7,0x1FAF},{0x1FB0,0x1FB8},{0x1FB1,0x1FB9},{0x1FB3,0x1FBC},{0x1FBE,0x399},{0x1FC3,0x1FCC},{0x1FD0,0x1FD8},{0x1FD1,0x1FD9},
{0x1FE0,0x1FE8},{0x1FE1,0x1FE9},{0x1FE5,0x1FEC},{0x1FF3,0x1FFC},{0x214E,0x2132},{0x2170,0x2160},{0x2171,0x2161},{0x2172,0x2162},{0x2173,0x2163},{0x2174,0x2164},
{0x2175,0x2165},{0x2176,0x2166},{0x2177,0x2167},{0x2178,0x2168},{0x2179,0x2169},{0x217A,0x216A},{0x217B,0x216B},{0x217C,0x216C},{0x217D,0x216D},{0x217E,0x216E},
{0x217F,0x216F},{0x2184,0x2183},{0x24D0,0x24B6},{0x24D1,0x24B7},{0x24D2,0x24B8},{0x24D3,0x24B9},{0x24D4,0x24BA},{0x24D5,0x24BB},{0x24D6,0x24BC},{0x24D7,0x24BD},
{0x24D8,0x24BE},{0x24D9,0x24BF},{0x24DA,0x24C0},{0x24DB,0x24C1},{0x24DC,0x24C2},{0x24DD,0x24C3},{0x24DE,0x24C4},{0x24DF,0x24C5},{0x24E0,0x24C6},{0x24E1,0x24C7},
{0x24E2,0x24C8},{0x24E3,0x24C9},{0x24E4,0x24CA},{0x24E5,0x24CB},{0x24E6,0x24CC},{0x24E7,0x24CD},{0x24E8,0x24CE},{0x24E9,0x24CF},{0x2C30,0x2C00},{0x2C31,0x2C01},
{0x2C32,0x2C02},{0x2C33,0x2C03},{0x2C34,0x2C04},{0x2C35,0x2C05},{0x2C36,0x2C06},{0x2C37,0x2C07},{0x2C38,0x2C08},{0x2C39,0x2C09},{0x2C3A,0x2C0A},{0x2C3B,0x2C0B},
{0x2C3C,0x2C0C},{0x2C3D,0x2C0D},{0x2C3E,0x2C0E},{0x2C3F,0x2C0F},{0x2C40,0x2C10},{0x2C41,0x2C11},{0x2C42,0x2C12},{0x2C43,0x2C13},{0x2C44,0x2C14},{0x2C45,0x2C15},
{0x2C46,0x2C16},{0x2C47,0x2C17},{0x2C48,0x2C18},{0x2C49,0x2C19},{0x2C4A,0x2C1A},{0x2C4B,0x2C1B},{0x2C4C,0x2C1C},{0x2C4D,0x2C1D},{0x2C4E,0x2C1E},{0x2C4F,0x2C1F},
{0x2C50,0x2C20},{0x2C51,0x2C21},{0x2C52,0x2C22},{0x2C53,0x2C23},{0x2C54,0x2C24},{0x2C55,0x2C25},{0x2C56,0x2C26},{0x2C57,0x2C27},{0x2C58,0x2C28},{0x2C59,0x2C29},
{0x2C5A,0x2C2A},{0x2C5B,0x2C2B},{0x2C5C,0x2C2C},{0x2C5D,0x2C2D},{0x2C5E,0x2C2E},{0x2C5F,0x2C2F},{0x2C61,0x2C60},{0x2C65,0x23A},{0x2C66,0x23E},{0x2C68,0x2C67},
{0x2C6A,0x2C69},{0x2C6C,0x2C6B},{0x2C73,0x2C72},{0x2C76,0x2C75},{0x2C81,0x2C80},{0x2C83,0x2C82},{0x2C85,0x2C84},{0x2C87,0x2C86},{0x2C89,0x2C88},{0x2C8B,0x2C8A},
{0x2C8D,0x2C8C},{0x2C8F,0x2C8E},{0x2C91,0x2C90},{0x2C93,0x2C92},{0x2C95,0x2C94},{0x2C97,0x2C96},{0x2C99,0x2C98},{0x2C9B,0x2C9A},{0x2C9D,0x2C9C},{0x2C9F,0x2C9E},
{0x2CA1,0x2CA0},{0x2CA3,0x2CA2},{0x2CA5,0x2CA4},{0x2CA7,0x2CA6},{0x2CA9,0x2CA8},{0x2CAB,0x2CAA},{0x2CAD,0x2CAC},{0x2CAF,0x2CAE},{0x2CB1,0x2CB0},{0x2CB3,0x2CB2},
{0x2CB5,0x2CB4},{0x2CB7,0x2CB6},{0x2CB9,0x2CB8},{0x2CBB,0x2CBA},{0x2CBD,0x2CBC},{0x2CBF,0x2CBE},{0x2CC1,0x2CC0},{0x2CC3,0x2CC2},{0x2CC5,0x2CC4},{0x2CC7,0x2CC6},
{0x2CC9,0x2CC8},{0x2CCB,0x2CCA},{0x2CCD,0x2CCC},{0x2CCF,0x2CCE},{0x2CD1,0x2CD0},{0x2CD3,0x2CD2},{0x2CD5,0x2CD4},{0x2CD7,0x2CD6},{0x2CD9,0x2CD8},{0x2CDB,0x2CDA},
{0x2CDD,0x2CDC},{0x2CDF,0x2CDE},{0x2CE1,0x2CE0},{0x2CE3,0x2CE2},{0x2CEC,0x2CEB},{0x2CEE,0x2CED},{0x2CF3,0x2CF2},{0x2D00,0x10A0},{0x2D01,0x10A1},{0x2D02,0x10A2},
{0x2D03,0x10A3},{0x2D04,0x10A4},{0x2D05,0x10A5},{0x2D06,0x10A6},{0x2D07,0x10A7},{0x2D08,0x10A8},{0x2D09,0x10A9},{0x2D0A,0x10AA},{0x2D0B,0x10AB},{0x2D0C,0x10AC},
{0x2D0D,0x10AD},{0x2D0E,0x10AE},{0x2D0F,0x10AF},{0x2D10,0x10B0},{0x2D11,0x10B1},{0x2D12,0x10B2},{0x2D13,0x10B3},{0x2D14,0x10B4},{0x2D15,0x10B5},{0x2D16,0x10B6},
{0x2D17,0x10B7},{0x2D18,0x10B8},{0x2D19,0x10B9},{0x2D1A,0x10BA},{0x2D1B,0x10BB},{0x2D1C,0x10BC},{0x2D1D,0x10BD},{0x2D1E,0x10BE},{0x2D1F,0x10BF},{0x2D20,0x10C0},
{0x2D21,0x10C1},{0x2D22,0x10C2},{0x2D23,0x10C3},{0x2D24,0x10C4},{0x2D25,0x10C5},{0x2D27,0x10C7},{0x2D2D,0x10CD},{0xA641,0xA640},{0xA643,0xA642},{0xA645,0xA644},
{0xA647,0xA646},{0xA649,0xA648},{0xA64B,0xA64A},{0xA64D,0xA64C},{0xA64F,0xA64E},{0xA651,0xA650},{0xA653,0xA652},{0xA655,0xA654},{0xA657,0xA656},{0xA659,0xA658},
{0xA65B,0xA65A},{0xA65D,0xA65C},{0xA65F,0xA65E},{0xA661,0xA660},{0xA663,0xA662},{0xA665,0xA664},{0xA667,0xA666},{0xA669,0xA668},{0xA66B,0xA66A},{0xA66D,0xA66C},
{0xA681,0xA680},{0xA683,0xA682},{0xA685,0xA684},{0xA687,0xA686},{0xA689,0xA688},{0xA68B,0xA68A},{0xA68D,0xA68C},{0xA68F,0xA68E},{0xA691,0xA690},{0xA693,0xA692},
{0xA695,0xA694},{0xA697,0xA696},{0xA699,0xA698},{0xA69B,0xA69A},{0xA723,0xA722},{0xA725,0xA724},{0xA727,0xA726},{0xA729,0xA728},{0xA72B,0xA72A},{0xA72D,0xA72C},
{0xA72F,0xA72E},{0xA733,0xA732},{0xA735,0xA734},{0xA737,0xA736},{0xA739,0xA738},{0xA73B,0xA73A},{0xA73D,0xA73C},{0xA73F,0xA73E},{0xA741,0xA740},{0xA743,0xA742},
{0xA745,0xA744},{0xA747,0xA746},{0xA749,0xA748},{0xA74B,0xA74A},{0xA74D,0xA74C},{0xA74F,0xA74E},{0xA751,0xA750},{0xA753,0xA752},{0xA755,0xA754},{0xA757,0xA756},
{0xA759,0xA758},{0xA75B,0xA75A},{0xA75D,0xA75C},{0xA75F,0xA75E},{0xA761,0xA760},{0xA763,0xA762},{0xA765,0xA764},{0xA767,0xA766},{0xA769,0xA768},{0xA76B,0xA76A},
{0xA76D,0xA76C},{0xA76F,0xA76E},{0xA77A,0xA779},{0xA77C,0xA77B},{0xA77F,0xA77E},{0xA781,0xA780},{0xA783,0xA782},{0xA785,0xA784},{0xA787,0xA786},{0xA78C,0xA78B},
{0xA791,0xA790},{0xA793,0xA792},{0xA794,0xA7C4},{0xA797,0xA796},{0xA799,0xA798},{0xA79B,0xA79A},{0xA79D,0xA79C},{0xA79F,0xA79E},{0xA7A1,0xA7A0},{0xA7A3,0xA7A2},
{0xA7A5,0xA7A4},{0xA7A7,0xA7A6},{0xA7A9,0xA7A8},{0xA7B5,0xA7B4},{0xA7B7,0xA7B6},{0xA7B9,0xA7B8},{0xA7BB,0xA7BA},{0xA7BD,0xA7BC},{0xA7BF,0xA7BE},{0xA7C1,0xA7C0},
{0xA7C3,0xA7C2},{0xA7C8,0xA7C7},{0xA7CA,0xA7C9},{0xA7D1,0xA7D0},{0xA7D7,0xA7D6},{0xA7D9,0xA7D8},{0xA7F6,0xA7F5},{0xAB53,0xA7B3},{0xAB70,0x13A0},{0xAB71,0x13A1},
{0xAB72,0x13A2},{0xAB73,0x13A3},{0xAB74,0x13A4},{0xAB75,0x13A5},{0xAB76,0x13A6},{0xAB77,0x13A7},{0xAB78,0x13A8},{0xAB79,0x13A9},{0xAB7A,0x13AA},{0xAB7B,0x13AB},
{0xAB7C,0x13AC},{0xAB7D,0x13AD},{0xAB7E,0x13AE},{0xAB7F,0x13AF},{0xAB80,0x13B0},{0xAB81,0x13B1},{0xAB82,0x13B2},{0xAB83,0x13B3},{0xAB84,0x13B4},{0xAB85,0x13B5},
{0xAB86,0x13B6},{0xAB87,0x13B7},{0xAB88,0x13B8},{0xAB89,0x13B9},{0xAB8A,0x13BA},{0xAB8B,0x13BB},{0xAB8C,0x13BC},{0xAB8D,0x13BD},{0xAB8E,0x13BE},{0xAB8F,0x13BF},
{0xAB90,0x13C0},{0xAB91,0x13C1},{0xAB92,0x13C2},{0xAB93,0x13C3},{0xAB94,0x13C4},{0xAB95,0x13C5},{0xAB96,0x13C6},{0xAB97,0x13C7},{0xAB98,0x13C8},{0xAB99,0x13C9},
{0xAB9A,0x13CA},{0xAB9B,0x13CB},{0xAB9C,0x13CC},{0xAB9D,0x13CD},{0xAB9E,0x13CE},{0xAB9F,0x13CF},{0xABA0,0x13D0},{0xABA1,0x13D1},{0xABA2,0x13D2},{0xABA3,0x13D3},
{0xABA4,0x13D4},{0xABA5,0x13D5},{0xABA6,0x13D6},{0xABA7,0x13D7},{0xABA8,0x13D8},{0xABA9,0x13D9},{0xABAA,0x13DA},{0xABAB,0x13DB},{0xABAC,0x13DC},{0xABAD,0x13DD},
{0xABAE,0x13DE},{0xABAF,0x13DF},{0xABB0,0x13E0},{0xABB1,0x13E1},{0xABB2,0x13E2},{0xABB3,0x13E3},{0xABB4,0x13E4},{0xABB5,0x13E5},{0xABB6,0x13E6},{0xABB7,0x13E7},
{0xABB8,0x13E8},{0xABB9,0x13E9},{0xABBA,0x13EA},{0xABBB,0x13EB},{0xABBC,0x13EC},{0xABBD,0x13ED},{0xABBE,0x13EE},{0xABBF,0x13EF},{0xFF41,0xFF21},{0xFF42,0xFF22},
{0xFF43,0xFF23},{0xFF44,0xFF24},{0xFF45,0xFF25},{0xFF46,0xFF26},{0xFF47,0xFF27},{0xFF48,0xFF28},{0xFF49,0xFF29},{0xFF4A,0xFF2A},{0xFF4B,0xFF2B},{0xFF4C,0xFF2C},
{0xFF4D,0xFF2D},{0xFF4E,0xFF2E},{0xFF4F,0xFF2F},{0xFF50,0xFF30},{0xFF51,0xFF31},{0xFF52,0xFF32},{0xFF53,0xFF33},{0xFF54,0xFF34},{0xFF55,0xFF35},{0xFF56,0xFF36},
{0xFF57,0xFF37},{0xFF58,0xFF38},{0xFF59,0xFF39},{0xFF5A,0xFF3A},{0x10428,0x10400},{0x10429,0x10401},{0x1042A,0x10402},{0x1042B,0x10403},{0x1042C,0x10404},{0x1042D,0x10405},
{0x1042E,0x10406},{0x1042F,0x10407},{0x10430,0x10408},{0x10431,0x10409},{0x10432,0x1040A},{0x10433,0x1040B},{0x10434,0x1040C},{0x10435,0x1040D},{0x10436,0x1040E},{0x10437,0x1040F},
{0x10438,0x10410},{0x10439,0x10411},{0x1043A,0x10412},{0x1043B,0x10413},{0x1043C,0x10414},{0x1043D,0x10415},{0x1043E,0x10416},{0x1043F,0x10417},{0x10440,0x10418},{0x10441,0x10419},
{0x10442,0x1041A},{0x10443,0x1041B},{0x10444,0x1041C},{0x10445,0x1041D},{0x10446,0x1041E},{0x10447,0x1041F},{0x10448,0x10420},{0x10449,0x10421},{0x1044A,0x10422},{0x1044B,0x10423},
{0x1044C,0x10424},{0x1044D,0x10425},{0x1044E,0x10426},{0x1044F,0x10427},{0x104D8,0x104B0},{0x104D9,0x104B1},{0x104DA,0x104B2},{0x104DB,0x104B3},{0x104DC,0x104B4},{0x104DD,0x104B5},
{0x104DE,0x104B6},{0x104DF,0x104B7},{0x104E0,0x104B8},{0x104E1,0x104B9},{0x104E2,0x104BA},{0x104E3,0x104BB},{0x104E4,0x104BC},{0x104E5,0x104BD},{0x104E6,0x104BE},{0x104E7,0x104BF},
{0x104E8,0x104C0},{0x104E9,0x104C1},{0x104EA,0x104C2},{0x104EB,0x104C3},{0x104EC,0x104C4},{0x104ED,0x104C5},{0x104EE,0x104C6},{0x104EF,0x104C7},{0x104F0,0x104C8},{0x104F1,0x104C9},
{0x104F2,0x104CA},{0x104F3,0x104CB},{0x104F4,0x104CC},{0x104F5,0x104CD},{0x104F6,0x104CE},{0x104F7,0x104CF},{0x104F8,0x104D0},{0x104F9,0x104D1},{0x104FA,0x104D2},{0x104FB,0x104D3},
{0x10597,0x10570},{0x10598,0x10571},{0x10599,0x10572},{0x1059A,0x10573},{0x1059B,0x10574},{0x1059C,0x10575},{0x1059D,0x10576},{0x1059E,0x10577},{0x1059F,0x10578},{0x105A0,0x10579},
{0x105A1,0x1057A},{0x105A3,0x1057C},{0x105A4,0x1057D},{0x105A5,0x1057E},{0x105A6,0x1057F},{0x105A7,0x10580},{0x105A8,0x10581},{0x105A9,0x10582},{0x105AA,0x10583},{0x105AB,0x10584},
{0x105AC,0x10585},{0x105AD,0x10586},{0x105AE,0x10587},{0x105AF,0x10588},{0x105B0,0x10589},{0x105B1,0x1058A},{0x105B3,0x1058C},{0x105B4,0x1058D},{0x105B5,0x1058E},{0x105B6,0x1058F},
{0x105B7,0x10590},{0x105B8,0x10591},{0x105B9,0x10592},{0x105BB,0x10594},{0x105BC,0x10595},{0x10CC0,0x10C80},{0x10CC1,0x10C81},{0x10CC2,0x10C82},{0x10CC3,0x10C83},{0x10CC4,0x10C84},
{0x10CC5,0x10C85},{0x10CC6,0x10C86},{0x10CC7,0x10C87},{0x10CC8,0x10C88},{0x10CC9,0x10C89},{0x10CCA,0x10C8A},{0x10CCB,0x10C8B},{0x10CCC,0x10C8C},{0x10CCD,0x10C8D},{0x10CCE,0x10C8E},
{0x10CCF,0x10C8F},{0x10CD0,0x10C90},{0x10CD1,0x10C91},{0x10CD2,0x10C92},{0x10CD3,0x10C93},{0x10CD4,0x10C94},{0x10CD5,0x10C95},{0x10CD6,0x10C96},{0x10CD7,0x10C97},{0x10CD8,0x10C98},
{0x10CD9,0x10C99},{0x10CDA,0x10C9A},{0x10CDB,0x10C9B},{0x10CDC,0x10C9C},{0x10CDD,0x10C9D},{0x10CDE,0x10C9E},{0x10CDF,0x10C9F},{0x10CE0,0x10CA0},{0x10CE1,0x10CA1},{0x10CE2,0x10CA2},
{0x10CE3,0x10CA3},{0x10CE4,0x10CA4},{0x10CE5,0x10CA5},{0x10CE6,0x10CA6},{0x10CE7,0x10CA7},{0x10CE8,0x10CA8},{0x10CE9,0x10CA9},{0x10CEA,0x10CAA},{0x10CEB,0x10CAB},{0x10CEC,0x10CAC},
{0x10CED,0x10CAD},{0x10CEE,0x10CAE},{0x10CEF,0x10CAF},{0x10CF0,0x10CB0},{0x10CF1,0x10CB1},{0x10CF2,0x10CB2},{0x118C0,0x118A0},{0x118C1,0x118A1},{0x118C2,0x118A2},{0x118C3,0x118A3},
{0x118C4,0x118A4},{0x118C5,0x118A5},{0x118C6,0x118A6},{0x118C7,0x118A7},{0x118C8,0x118A8},{0x118C9,0x118A9},{0x118CA,0x118AA},{0x118CB,0x118AB},{0x118CC,0x118AC},{0x118CD,0x118AD},
{0x118CE,0x118AE},{0x118CF,0x118AF},{0x118D0,0x118B0},{0x118D1,0x118B1},{0x118D2,0x118B2},{0x118D3,0x118B3},{0x118D4,0x118B4},{0x118D5,0x118B5},{0x118D6,0x118B6},{0x118D7,0x118B7},
{0x118D8,0x118B8},{0x118D9,0x118B9},{0x118DA,0x118BA},{0x118DB,0x118BB},{0x118DC,0x118BC},{0x118DD,0x118BD},{0x118DE,0x118BE},{0x118DF,0x118BF},{0x16E60,0x16E40},{0x16E61,0x16E41},
{0x16E62,0x16E42},{0x16E63,0x16E43},{0x16E64,0x16E44},{0x16E65,0x16E45},{0x16E66,0x16E46},{0x16E67,0x16E47},{0x16E68,0x16E48},{0x16E69,0x16E49},{0x16E6A,0x16E4A},{0x16E6B,0x16E4B},
{0x16E6C,0x16E4C},{0x16E6D,0x16E4D},{0x16E6E,0x16E4E},{0x16E6F,0x16E4F},{0x16E70,0x16E50},{0x16E71,0x16E51},{0x16E72,0x16E52},{0x16E73,0x16E53},{0x16E74,0x16E54},{0x16E75,0x16E55},
{0x16E76,0x16E56},{0x16E77,0x16E57},{0x16E78,0x16E58},{0x16E79,0x16E59},{0x16E7A,0x16E5A},{0x16E7B,0x16E5B},{0x16E7C,0x16E5C},{0x16E7D,0x16E5D},{0x16E7E,0x16E5E},{0x16E7F,0x16E5F},
{0x1E922,0x1E900},{0x1E923,0x1E901},{0x1E924,0x1E902},{0x1E925,0x1E903},{0x1E926,0x1E904},{0x1E927,0x1E905},{0x1E928,0x1E906},{0x1E929,0x1E907},{0x1E92A,0x1E908},{0x1E92B,0x1E909},
{0x1E92C,0x1E90A},{0x1E92D,0x1E90B},{0x1E92E,0x1E90C},{0x1E92F,0x1E90D},{0x1E930,0x1E90E},{0x1E931,0x1E90F},{0x1E932,0x1E910},{0x1E933,0x1E911},{0x1E934,0x1E912},{0x1E935,0x1E913},
{0x1E936,0x1E914},{0x1E937,0x1E915},{0x1E938,0x1E916},{0x1E939,0x1E917},{0x1E93A,0x1E918},{0x1E93B,0x1E919},{0x1E93C,0x1E91A},{0x1E93D,0x1E91B},{0x1E93E,0x1E91C},{0x1E93F,0x1E91D},
{0x1E940,0x1E91E},{0x1E941,0x1E91F},{0x1E942,0x1E920},{0x1E943,0x1E921},
};
