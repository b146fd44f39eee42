// Each case: a program that must compile without its `//-` lines and must be rejected, with the error code named, with them.

//= index-bytes E0597 an index cannot outlive the bytes it was loaded from
fn f() {
    let index;
    {
        let bytes: Vec<u8> = any();
        let elements: angular::Vectors<'static> = any();
        index = Granne::from_bytes(&bytes, elements);
        used(&index);
    }
    used(&index); //-
}

//= index-elements E0597 an index cannot outlive the elements it borrows
fn f() {
    let bytes: Vec<u8> = any();
    let index;
    {
        let elements: angular::Vectors<'static> = any();
        index = Granne::from_bytes(&bytes, &elements);
        used(&index);
    }
    used(&index); //-
}

//= index-element-bytes E0597 an index cannot outlive the bytes its elements were loaded from
fn f() {
    let index_bytes: Vec<u8> = any();
    let index;
    {
        let bytes: Vec<u8> = any();
        let elements = angular_int::Vectors::from_bytes(&bytes);
        index = Granne::from_bytes(&index_bytes, elements);
        used(&index);
    }
    used(&index); //-
}

//= builder-element-bytes E0597 a builder cannot outlive the bytes its elements were loaded from
fn f() {
    let builder;
    {
        let bytes: Vec<u8> = any();
        builder = GranneBuilder::new(BuildConfig::default(), angular::Vectors::from_bytes(&bytes));
        used(&builder);
    }
    builder.num_elements(); //-
}

//= builder-elements E0597 a builder cannot outlive the elements it borrows
fn f() {
    let builder;
    {
        let elements: angular_int::Vectors<'static> = any();
        builder = GranneBuilder::new(BuildConfig::default(), &elements);
        used(&builder);
    }
    builder.num_elements(); //-
}

//= rw-element-bytes E0597 a concurrent builder cannot outlive the bytes its elements were loaded from
fn f() {
    let rw;
    {
        let bytes: Vec<u8> = any();
        rw = RwGranneBuilder::new(GranneBuilder::new(BuildConfig::default(), angular::Vectors::from_bytes(&bytes)), 10, 1);
        rw.len();
    }
    rw.len(); //-
}

//= float-bytes E0597 float vectors cannot outlive the bytes they were loaded from
fn f() {
    let vectors;
    {
        let bytes: Vec<u8> = any();
        vectors = angular::Vectors::from_bytes(&bytes);
        used(&vectors);
    }
    used(&vectors); //-
}

//= int-bytes E0597 8-bit vectors cannot outlive the bytes they were loaded from
fn f() {
    let vectors;
    {
        let bytes: Vec<u8> = any();
        vectors = angular_int::Vectors::from_bytes(&bytes);
        used(&vectors);
    }
    used(&vectors); //-
}

//= float-slice E0597 float vectors cannot outlive the slice they borrow
fn f() {
    let vectors;
    {
        let data: Vec<f32> = any();
        vectors = angular::Vectors::from_slice(&data, 3);
        used(&vectors);
    }
    used(&vectors); //-
}

//= int-slice E0597 8-bit vectors cannot outlive the slice they borrow
fn f() {
    let vectors;
    {
        let data: Vec<i8> = any();
        vectors = angular_int::Vectors::from_slice(&data, 3);
        used(&vectors);
    }
    used(&vectors); //-
}

//= float-slice-write E0506 borrowed data cannot change under float vectors
fn f() {
    let mut data = [0.0f32; 6];
    let vectors = angular::Vectors::from_slice(&data, 3);
    data[0] = 1.0; //-
    used(&vectors);
}

//= embeddings-element-bytes E0597 embeddings cannot outlive the bytes their elements were loaded from
fn f<'a>(e: fn(&'static u8) -> embeddings::SumEmbeddings<'static>) {
    let x;
    {
        let bytes: Vec<u8> = any();
        x = embeddings::SumEmbeddings::from_bytes(any(), &bytes);
        used(&x);
    }
    used(&x); //-
}

//= embeddings-borrow E0597 borrowed embeddings cannot outlive their owner
fn f() {
    let x;
    {
        let owner: embeddings::SumEmbeddings<'static> = any();
        x = owner.borrow();
        used(&x);
    }
    used(&x); //-
}

//= float-borrow E0597 borrowed float vectors cannot outlive their owner
fn f() {
    let x;
    {
        let owner: angular::Vectors<'static> = any();
        x = owner.borrow();
        used(&x);
    }
    used(&x); //-
}

//= int-borrow E0597 borrowed 8-bit vectors cannot outlive their owner
fn f() {
    let x;
    {
        let owner: angular_int::Vectors<'static> = any();
        x = owner.borrow();
        used(&x);
    }
    used(&x); //-
}

//= float-borrow-push E0502 float vectors cannot grow while they are borrowed
fn f(v: &angular::Vector) {
    let mut owner: angular::Vectors<'static> = any();
    let x = owner.borrow();
    used(&x);
    owner.push(v);
    used(&x); //-
}

//= int-borrow-push E0502 8-bit vectors cannot grow while they are borrowed
fn f(v: &angular_int::Vector) {
    let mut owner: angular_int::Vectors<'static> = any();
    let x = owner.borrow();
    used(&x);
    owner.push(v);
    used(&x); //-
}

//= embeddings-borrow-push E0502 embeddings cannot grow while they are borrowed
fn f() {
    let mut owner: embeddings::SumEmbeddings<'static> = any();
    let x = owner.borrow();
    used(&x);
    owner.push_embedding(&[0.0]);
    used(&x); //-
}

//= float-vector E0597 a float vector cannot outlive the collection it is borrowed from
fn f() {
    let x;
    {
        let owner: angular::Vectors<'static> = any();
        x = owner.get_element(0);
        used(&x);
    }
    used(&x); //-
}

//= int-vector E0597 an 8-bit vector cannot outlive the collection it is borrowed from
fn f() {
    let x;
    {
        let owner: angular_int::Vectors<'static> = any();
        x = owner.get_element(0);
        used(&x);
    }
    used(&x); //-
}

//= float-vector-push E0502 float vectors cannot grow while one of them is borrowed
fn f(v: &angular::Vector) {
    let mut owner: angular::Vectors<'static> = any();
    let x = owner.get_element(0);
    used(&x);
    owner.push(v);
    used(&x); //-
}

//= int-vector-push E0502 8-bit vectors cannot grow while one of them is borrowed
fn f(v: &angular_int::Vector) {
    let mut owner: angular_int::Vectors<'static> = any();
    let x = owner.get_element(0);
    used(&x);
    owner.push(v);
    used(&x); //-
}

//= float-as-slice E0597 the data of float vectors cannot outlive them
fn f() {
    let x: &[f32];
    {
        let owner: angular::Vectors<'static> = any();
        x = owner.as_slice();
        used(x);
    }
    used(x); //-
}

//= int-as-slice E0597 the data of 8-bit vectors cannot outlive them
fn f() {
    let x: &[i8];
    {
        let owner: angular_int::Vectors<'static> = any();
        x = owner.as_slice();
        used(x);
    }
    used(x); //-
}

//= float-vector-as-slice E0597 the data of an owned float vector cannot outlive it
fn f() {
    let x: &[f32];
    {
        let owner: angular::Vector<'static> = any();
        x = owner.as_slice();
        used(x);
    }
    used(x); //-
}

//= int-vector-as-slice E0597 the data of an owned 8-bit vector cannot outlive it
fn f() {
    let x: &[i8];
    {
        let owner: angular_int::Vector<'static> = any();
        x = owner.as_slice();
        used(x);
    }
    used(x); //-
}

//= float-owned E0597 owned copies of float vectors are independent of the bytes, the vectors themselves are not
fn f() {
    let (x, y);
    {
        let bytes: Vec<u8> = any();
        y = angular::Vectors::from_bytes(&bytes);
        x = y.clone().into_owned();
    }
    used(&x);
    used(&y); //-
}

//= int-owned E0597 owned copies of 8-bit vectors are independent of the bytes, the vectors themselves are not
fn f() {
    let (x, y);
    {
        let bytes: Vec<u8> = any();
        y = angular_int::Vectors::from_bytes(&bytes);
        x = y.clone().into_owned();
    }
    used(&x);
    used(&y); //-
}

//= float-vector-owned E0597 an owned copy of a float vector is independent of its collection, the vector itself is not
fn f() {
    let (x, y);
    {
        let owner: angular::Vectors<'static> = any();
        y = owner.get_element(0);
        x = y.clone().into_owned();
    }
    used(&x);
    used(&y); //-
}

//= index-owned E0597 an owned copy of an index is independent of bytes and elements, the index itself is not
fn f() {
    let (x, y);
    {
        let bytes: Vec<u8> = any();
        let elements: Vec<angular::Vector<'static>> = any();
        let slice: &[angular::Vector<'static>] = &elements;
        y = Granne::from_bytes(&bytes, slice);
        x = y.get_elements().len();
    }
    used(&x);
    used(&y); //-
}

//= snapshot-outlives E0597 the index of a builder cannot outlive the builder
fn f() {
    let index;
    {
        let builder: GranneBuilder<angular::Vectors<'static>> = any();
        index = builder.get_index();
        used(&index);
    }
    used(&index); //-
}

//= snapshot-build E0502 a builder cannot build while its index is in use
fn f(mut builder: GranneBuilder<angular::Vectors<'static>>) {
    let index = builder.get_index();
    used(&index);
    builder.build();
    used(&index); //-
}

//= snapshot-build-partial E0502 a builder cannot build partially while its index is in use
fn f(mut builder: GranneBuilder<angular_int::Vectors<'static>>) {
    let index = builder.get_index();
    used(&index);
    builder.build_partial(10);
    used(&index); //-
}

//= snapshot-push E0502 a builder cannot take elements while its index is in use
fn f(mut builder: GranneBuilder<angular::Vectors<'static>>, v: angular::Vector<'static>) {
    let index = builder.get_index();
    used(&index);
    builder.push(v);
    used(&index); //-
}

//= elements-through-index E0596 elements cannot be modified through an index
fn f(mut index: Granne<'static, angular::Vectors<'static>>, v: angular::Vector<'static>) {
    index.get_elements().len();
    index.get_elements().push(&v); //-
}

//= elements-through-shared-index E0596 elements cannot be modified through a shared index
fn f(index: &Granne<'static, embeddings::SumEmbeddings<'static>>) {
    index.get_elements().num_embeddings();
    index.get_elements().push_embedding(&[0.0]); //-
}

//= elements-through-builder E0596 elements cannot be modified through a builder other than by adding
fn f(mut builder: GranneBuilder<angular_int::Vectors<'static>>) {
    builder.get_elements().len();
    builder.get_elements().permute(&[]); //-
}

//= elements-through-rw E0596 elements cannot be modified through a concurrent builder other than by adding
fn f(mut rw: RwGranneBuilder<angular_int::Vectors<'static>>) {
    rw.get_elements().len();
    rw.get_elements().permute(&[]); //-
}

//= elements-type E0308 the elements of an index are handed out shared
fn f(mut index: Granne<'static, angular::Vectors<'static>>, mut builder: GranneBuilder<angular::Vectors<'static>>) {
    let a: &angular::Vectors = index.get_elements();
    let a: &mut angular::Vectors = index.get_elements(); //-
    let b: &angular::Vectors = builder.get_elements();
}

//= elements-field E0616 the elements of an index are not accessible otherwise
fn f(mut index: Granne<'static, angular::Vectors<'static>>) {
    used(&index);
    used(&mut index.elements); //-
}

//= layers-field E0616 the layers of an index are not accessible otherwise
fn f(mut index: Granne<'static, angular::Vectors<'static>>) {
    used(&index);
    used(&mut index.layers); //-
}

//= builder-elements-field E0616 the elements of a builder are not accessible otherwise
fn f(mut builder: GranneBuilder<angular::Vectors<'static>>) {
    used(&builder);
    used(&mut builder.elements); //-
}

//= rw-elements-field E0616 the elements of a concurrent builder are not accessible otherwise
fn f(mut rw: RwGranneBuilder<angular::Vectors<'static>>) {
    used(&rw);
    used(&mut rw.elements); //-
}

//= index-elements-outlive E0597 the elements handed out cannot outlive the index
fn f() {
    let x;
    {
        let index: Granne<'static, angular::Vectors<'static>> = any();
        x = index.get_elements();
        used(x);
    }
    used(x); //-
}

//= builder-elements-outlive E0597 the elements handed out cannot outlive the builder
fn f() {
    let x;
    {
        let builder: GranneBuilder<angular::Vectors<'static>> = any();
        x = builder.get_elements();
        used(x);
    }
    used(x); //-
}

//= rw-elements-outlive E0505 a concurrent builder stays while the elements handed out are in use
fn f(rw: RwGranneBuilder<angular::Vectors<'static>>) {
    let x = rw.get_elements();
    drop(rw); //-
    used(&*x);
}

//= rw-elements-type E0596 a concurrent builder hands out its elements shared
fn f(rw: &mut RwGranneBuilder<angular::Vectors<'static>>) {
    let mut x = rw.get_elements();
    let y: &angular::Vectors = &*x;
    let z: &mut angular::Vectors = &mut *x; //-
}

//= index-elements-reorder E0502 an index cannot be reordered while its elements are in use
fn f(mut index: Granne<'static, angular::Vectors<'static>>) {
    let x = index.get_elements();
    used(x);
    index.reorder(false);
    used(x); //-
}

//= search-shared E0596 searching needs only shared access, reordering exclusive access
fn f(index: &Granne<angular::Vectors>, v: &angular::Vector<'static>) {
    index.search(v, 10, 10);
    index.get_element(0);
    index.len();
    index.num_layers();
    index.get_neighbors(0, 0);
    index.reorder(false); //-
}

//= reorder-keys-shared E0596 reordering by keys needs exclusive access
fn f(index: &Granne<embeddings::SumEmbeddings>, v: &angular::Vector<'static>) {
    index.search(v, 10, 10);
    index.reorder_by_keys(&[0usize], false); //-
}

//= build-shared E0596 building needs exclusive access, looking at the index shared
fn f(builder: &GranneBuilder<angular::Vectors<'static>>, v: &angular::Vector<'static>) {
    builder.get_index().search(v, 10, 10);
    builder.num_elements();
    builder.len();
    builder.build(); //-
}

//= build-partial-shared E0596 building partially needs exclusive access
fn f(builder: &GranneBuilder<angular_int::Vectors<'static>>) {
    builder.get_index();
    builder.build_partial(10); //-
}

//= push-shared E0596 adding elements to a builder needs exclusive access
fn f(builder: &GranneBuilder<angular::Vectors<'static>>, v: angular::Vector<'static>) {
    builder.get_elements();
    builder.push(v); //-
}

//= collection-shared E0596 adding to a collection needs exclusive access
fn f(x: &angular::Vectors, y: &angular_int::Vectors, v: &angular::Vector) {
    x.len();
    y.dim();
    x.get_element(0);
    x.push(v); //-
}

//= collection-permute-shared E0596 permuting a collection needs exclusive access
fn f(x: &angular_int::Vectors) {
    x.len();
    x.permute(&[]); //-
}

//= embeddings-shared E0596 adding embeddings needs exclusive access
fn f(x: &embeddings::SumEmbeddings) {
    x.get_terms(0);
    x.get_embedding(0);
    x.create_embedding(&[0]);
    x.push(&[0usize][..]); //-
}

//= threads-search E0502 threads can search one index at the same time, but not while it is reordered
fn f(index: &mut Granne<'static, angular::Vectors<'static>>, v: &angular::Vector<'static>) {
    std::thread::scope(|s| {
        let i = &*index;
        s.spawn(move || i.search(v, 10, 10));
        s.spawn(move || i.search(v, 20, 10));
        index.reorder(false); //-
    });
}

//= threads-rw E0506 threads can search and insert at the same time, but the builder stays
fn f(rw: &mut RwGranneBuilder<angular::Vectors<'static>>, v: &angular::Vector<'static>) {
    std::thread::scope(|s| {
        let r = &*rw;
        s.spawn(move || r.search(v, 10, 10));
        s.spawn(move || r.insert(any()));
        s.spawn(move || r.insert_batch(any()));
        s.spawn(move || r.len());
        *rw = any(); //-
    });
}

//= index-send E0277 an index can be sent to threads exactly when its elements can
fn f<E: ElementContainer + Send>() {
    send::<Granne<'static, E>>();
    send::<Granne<'static, Vec<Local>>>(); //-
}

//= index-sync E0277 an index can be shared exactly when its elements can
fn f<E: ElementContainer + Sync>() {
    sync::<Granne<'static, E>>();
    sync::<Granne<'static, Vec<Local>>>(); //-
}

//= index-sync-cell E0277 an index of unshared elements cannot be shared
fn f() {
    send::<Granne<'static, Vec<Unshared>>>();
    sync::<Granne<'static, Vec<Unshared>>>(); //-
}

//= index-ref-send E0277 an index that borrows elements can be sent exactly when they can be shared
fn f<'a, E: ElementContainer + Sync + 'a>() {
    send::<Granne<'a, &'a E>>();
    send::<Granne<'static, &'static Vec<Unshared>>>(); //-
}

//= builder-send E0277 a builder can be sent to threads exactly when its elements can
fn f<E: ElementContainer + Send>() {
    send::<GranneBuilder<E>>();
    send::<GranneBuilder<Vec<Local>>>(); //-
}

//= builder-sync E0277 a builder can be shared exactly when its elements can
fn f<E: ElementContainer + Sync>() {
    sync::<GranneBuilder<E>>();
    sync::<GranneBuilder<Vec<Unshared>>>(); //-
}

//= rw-send E0277 a concurrent builder can be sent to threads exactly when its elements can
fn f<E: ExtendableElementContainer + Writeable + Send + Sync>() {
    send::<RwGranneBuilder<E>>();
    send::<RwGranneBuilder<Items<Local>>>(); //-
}

//= rw-sync E0277 a concurrent builder can be shared exactly when its elements can
fn f<E: ExtendableElementContainer + Writeable + Send + Sync>() {
    sync::<RwGranneBuilder<E>>();
    sync::<RwGranneBuilder<Items<Unshared>>>(); //-
}

//= rw-sync-send E0277 a concurrent builder of elements bound to a thread cannot be shared
fn f() {
    sync::<RwGranneBuilder<Items<f32>>>();
    sync::<RwGranneBuilder<Items<Local>>>(); //-
}

//= collections-send E0277 collections and options can be sent to threads
fn f<'a>() {
    send::<angular::Vectors<'a>>();
    send::<angular::Vector<'a>>();
    send::<angular_int::Vectors<'a>>();
    send::<angular_int::Vector<'a>>();
    send::<embeddings::SumEmbeddings<'a>>();
    send::<BuildConfig>();
    send::<Items<Local>>(); //-
}

//= collections-sync E0277 collections and options can be shared
fn f<'a>() {
    sync::<angular::Vectors<'a>>();
    sync::<angular::Vector<'a>>();
    sync::<angular_int::Vectors<'a>>();
    sync::<angular_int::Vector<'a>>();
    sync::<embeddings::SumEmbeddings<'a>>();
    sync::<BuildConfig>();
    sync::<Items<Unshared>>(); //-
}
